"""Self-referential foreign key, depended on in both directions."""
from django.db import models
from denorm import denormalized, depend_on_related


class Node(models.Model):
    parent = models.ForeignKey('self', null=True, related_name='kids', on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='forward')
    def up(self):
        return self.parent.val + 1 if self.parent is not None else 0

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='backward')
    def down(self):
        if self.pk is None:
            return 0
        return sum(k.val for k in self.kids.all())
