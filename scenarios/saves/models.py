"""Every kind of computed field: numbers, texts, NULLs, foreign keys (object, key, None), many-to-many."""
from django.db import models
from denorm import denormalized, depend_on_related


class Group(models.Model):
    val = models.IntegerField(default=0)


class Person(models.Model):
    group = models.ForeignKey(Group, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Group, foreign_key='group')
    def score(self):
        return self.val + (self.group.val if self.group is not None else 0)

    @denormalized(models.IntegerField, null=True)
    def spare(self):
        return self.val * 2 if self.group_id is not None else None

    @denormalized(models.CharField, max_length=30, default='')
    def size(self):
        return 'big' if self.val > 10 else 'small'

    @denormalized(models.ForeignKey, Group, null=True, related_name='+', on_delete=models.SET_NULL)
    def home(self):
        return self.group if self.val > 0 else None

    @denormalized(models.ForeignKey, Group, null=True, related_name='+', on_delete=models.SET_NULL)
    def base(self):
        return self.group_id if self.val < 5 else None

    @denormalized(models.ManyToManyField, Group, related_name='+')
    def circle(self):
        if self.group_id is None or self.val == 3:
            return []
        return [self.group] if self.val > 3 else [self.group_id]
