"""Columns declared irrelevant where the relation is a many-to-many or a generic one."""
from django.db import models
from django.contrib.contenttypes.models import ContentType
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from denorm import CacheKeyField, denormalized, depend_on_related


class Mark(models.Model):
    val = models.IntegerField(default=0)
    note = models.IntegerField(default=0)
    seen = models.IntegerField(default=0)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')

    denorm_always_skip = ('seen',)


class Group(models.Model):
    val = models.IntegerField(default=0)
    note = models.IntegerField(default=0)
    seen = models.IntegerField(default=0)

    denorm_always_skip = ('seen',)


class Song(models.Model):
    groups = models.ManyToManyField(Group)
    marks = GenericRelation(Mark)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Group, skip=('note',))
    @depend_on_related(Mark, skip=('note',))
    def total(self):
        if self.pk is None:
            return 0
        return sum(g.val for g in self.groups.all()) + sum(m.val for m in self.marks.all())


class Page(models.Model):
    groups = models.ManyToManyField(Group)
    marks = GenericRelation(Mark)
    key = CacheKeyField()
    key.depend_on_related(Group, skip=['note'])
    key.depend_on_related(Mark, skip=['note'])
