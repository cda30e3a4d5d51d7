"""Counts and sums whose filters compare with texts and dates, quotes and percent signs among them."""
import datetime

from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Depot(models.Model):
    quoted = CountField('goods', filter={'label': "it's \"5%%\" \\ 'n"})
    unlabelled = CountField('goods', filter={'label': ''})
    recent = SumField('goods', field='amount', filter={'day__gte': datetime.date(2001, 2, 3)}, exclude={'label': '%s'})


class Good(models.Model):
    depot = models.ForeignKey(Depot, null=True, related_name='goods', on_delete=models.CASCADE)
    label = models.CharField(max_length=40, default='')
    day = models.DateField()
    amount = models.PositiveIntegerField(default=0)
