"""Rows attached by a generic foreign key that depend on what they are attached to."""
from django.db import models
from django.contrib.contenttypes.models import ContentType
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from denorm import CacheKeyField, denormalized, depend_on_related


class Film(models.Model):
    val = models.IntegerField(default=0)
    note = models.IntegerField(default=0)
    remarks = GenericRelation('Remark')
    stickers = GenericRelation('Sticker')


class Remark(models.Model):
    own = models.IntegerField(default=0)
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.PositiveIntegerField()
    content_object = GenericForeignKey('content_type', 'object_id')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Film, skip=('note',))
    def film_val(self):
        return self.own + sum(f.val for f in Film.objects.filter(pk=self.object_id)
                              if self.content_type_id == ContentType.objects.get_for_model(Film).pk)


class Sticker(models.Model):
    content_type = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    object_id = models.CharField(max_length=20)
    content_object = GenericForeignKey('content_type', 'object_id')
    key = CacheKeyField()
    key.depend_on_related(Film, skip=('note',))
