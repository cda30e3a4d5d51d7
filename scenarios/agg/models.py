"""Counts and sums over foreign keys: nullable, several on one parent, two parents, custom names."""
from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Shelf(models.Model):
    val = models.IntegerField(default=0)
    n_items = CountField('item_set')
    n_spare = CountField('spares')
    weight = SumField('item_set', field='weight')
    bonus = SumField('spares', field='bonus')


class Box(models.Model):
    n_items = CountField('content')
    total = SumField('content', field='price')


class Item(models.Model):
    shelf = models.ForeignKey(Shelf, null=True, on_delete=models.CASCADE)
    spare_of = models.ForeignKey(Shelf, null=True, related_name='spares', on_delete=models.CASCADE)
    box = models.ForeignKey(Box, related_name='content', on_delete=models.CASCADE)
    weight = models.PositiveIntegerField(default=0)
    price = models.PositiveIntegerField(default=0)
    bonus = models.PositiveIntegerField(null=True)
