"""A long chain: every level depends on the computed field of the level before."""
from django.db import models
from denorm import denormalized, depend_on_related

LEVELS = 20


class L0(models.Model):
    val = models.IntegerField(default=0)


def level(n, up):
    @denormalized(models.IntegerField, default=0)
    @depend_on_related(up)
    def d(self):
        return (self.up.val if n == 1 else self.up.d) + n
    attrs = {'__module__': __name__, 'up': models.ForeignKey(up, on_delete=models.CASCADE), 'd': d}
    return type('L%d' % n, (models.Model,), attrs)


ALL = [L0]
for i in range(1, LEVELS + 1):
    ALL.append(level(i, ALL[-1]))
    globals()[ALL[-1].__name__] = ALL[-1]
