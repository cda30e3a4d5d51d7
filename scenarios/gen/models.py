"""Generic relations: two models share one tag table, ids collide."""
from django.db import models
from django.contrib.contenttypes.models import ContentType
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from denorm import denormalized, depend_on_related


class Tag(models.Model):
    val = models.IntegerField(default=0)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')


class Book(models.Model):
    val = models.IntegerField(default=0)
    tags = GenericRelation(Tag)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Tag)
    def tag_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.tags.all())


class Film(models.Model):
    val = models.IntegerField(default=0)
    tags = GenericRelation(Tag)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Tag)
    def tag_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.tags.all()) * 3
