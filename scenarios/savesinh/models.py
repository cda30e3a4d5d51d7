"""Computed fields, one of them many-to-many, on a model that is extended and proxied."""
from django.db import models
from denorm import denormalized


class Group(models.Model):
    val = models.IntegerField(default=0)


class Base(models.Model):
    group = models.ForeignKey(Group, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return self.val * 2

    @denormalized(models.ManyToManyField, Group, related_name='+')
    def circle(self):
        return [self.group_id] if self.group_id is not None else []


class Alias(Base):
    class Meta:
        proxy = True


class Derived(Base):
    more = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def thrice(self):
        return self.more * 3
