"""Generic relations whose fields and columns have their own names, and cache keys over them."""
from django.db import models
from django.contrib.contenttypes.models import ContentType
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from denorm import denormalized, depend_on_related, CacheKeyField


class Remark(models.Model):
    val = models.IntegerField(default=0)
    kind = models.ForeignKey(ContentType, on_delete=models.CASCADE)
    owner = models.PositiveIntegerField()
    target = GenericForeignKey('kind', 'owner')


class Mark(models.Model):
    number = models.AutoField(primary_key=True, db_column='markNo')
    val = models.IntegerField(default=0, db_column='Value')
    kind = models.ForeignKey(ContentType, db_column='Kind', on_delete=models.CASCADE)
    owner = models.PositiveIntegerField(db_column='OwnerId')
    target = GenericForeignKey('kind', 'owner')


class Article(models.Model):
    val = models.IntegerField(default=0)
    remarks = GenericRelation(Remark, content_type_field='kind', object_id_field='owner')
    key = CacheKeyField()
    key.depend_on_related(Remark)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Remark)
    def remark_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.remarks.all())


class Video(models.Model):
    number = models.AutoField(primary_key=True, db_column='videoNo')
    remarks = GenericRelation(Remark, content_type_field='kind', object_id_field='owner')
    marks = GenericRelation(Mark, content_type_field='kind', object_id_field='owner')
    key = CacheKeyField(db_column='Key')
    key.depend_on_related(Mark)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Remark)
    def remark_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.remarks.all()) * 3

    @denormalized(models.IntegerField, default=0, db_column='Total')
    @depend_on_related('Mark')
    def mark_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.marks.all())
