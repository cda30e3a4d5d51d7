"""Filtered counts and sums (not available on SQLite)."""
from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Store(models.Model):
    active = CountField('items', filter={'active__exact': True})
    adults = CountField('items', filter={'age__gte': 18})
    named = CountField('items', filter={'active__exact': True}, exclude={'text': ''})
    not_five = CountField('items', exclude={'age': 5})
    rest = CountField('items', exclude={'age__lt': 10, 'active': True})
    adult_sum = SumField('items', field='amount', filter={'age__gte': 18})
    odd_sum = SumField('items', field='amount', exclude={'age__in': [1, 2, 3]})
    nocolour = CountField('items', filter={'colour__isnull': True})


class StoreItem(models.Model):
    store = models.ForeignKey(Store, null=True, related_name='items', on_delete=models.CASCADE)
    active = models.BooleanField(default=False)
    age = models.IntegerField(default=0)
    colour = models.IntegerField(null=True)
    text = models.CharField(max_length=40, default='')
    amount = models.PositiveIntegerField(default=0)
