"""Cache keys over every kind of relation."""
from django.db import models
from django.contrib.contenttypes.models import ContentType
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from denorm import CacheKeyField


class Tag(models.Model):
    val = models.IntegerField(default=0)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')


class Parent(models.Model):
    val = models.IntegerField(default=0)
    back_key = CacheKeyField()
    back_key.depend_on_related('Child')


class Child(models.Model):
    parent = models.ForeignKey(Parent, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)


class Branch(models.Model):
    val = models.IntegerField(default=0)
    hidden = models.IntegerField(default=0)


class Leaf(models.Model):
    branch = models.ForeignKey(Branch, null=True, on_delete=models.CASCADE)
    fwd_key = CacheKeyField()
    fwd_key.depend_on_related(Branch, skip=('hidden',))


class Word(models.Model):
    val = models.IntegerField(default=0)


class Text(models.Model):
    val = models.IntegerField(default=0)
    words = models.ManyToManyField(Word)
    tags = GenericRelation(Tag)
    m2m_key = CacheKeyField()
    m2m_key.depend_on_related(Word)
    tag_key = CacheKeyField()
    tag_key.depend_on_related(Tag)
