"""Counts and sums on models with a hiding default manager, without `objects`, and inherited ones."""
from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Visible(models.Manager):
    def get_queryset(self):
        return super(Visible, self).get_queryset().filter(hidden=0)


class Rack(models.Model):
    hidden = models.IntegerField(default=0)
    n = CountField('slot_set')
    objects = Visible()


class Tray(models.Model):
    val = models.IntegerField(default=0)
    total = SumField('slot_set', field='size')
    trays = models.Manager()


class BigTray(Tray):
    extra = models.IntegerField(default=0)
    n_big = CountField('slots')


class Slot(models.Model):
    rack = models.ForeignKey(Rack, null=True, on_delete=models.CASCADE)
    tray = models.ForeignKey(Tray, null=True, on_delete=models.CASCADE)
    big = models.ForeignKey(BigTray, null=True, related_name='slots', on_delete=models.CASCADE)
    size = models.PositiveIntegerField(default=0)
