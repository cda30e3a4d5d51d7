"""Foreign key dependencies: forward, backward, nullable, one-to-one, both directions at once."""
from django.db import models
from denorm import denormalized, depend_on_related


class Parent(models.Model):
    val = models.IntegerField(default=0)
    other = models.IntegerField(default=0, null=True)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Child')
    def child_total(self):
        return sum(c.val for c in self.child_set.all())


class Child(models.Model):
    parent = models.ForeignKey(Parent, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Parent)
    def parent_val(self):
        return self.parent.val * 2 if self.parent is not None else -1
