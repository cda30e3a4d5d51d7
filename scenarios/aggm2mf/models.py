"""Filtered counts and sums over many-to-many relations (not on SQLite)."""
from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Topic(models.Model):
    n_long = CountField('posts', filter={'words__gt': 3}, exclude={'hidden': True})
    words = SumField('posts', field='words', filter={'hidden': False})


class Post(models.Model):
    words = models.PositiveIntegerField(default=0)
    hidden = models.BooleanField(default=False)
    topics = models.ManyToManyField(Topic, related_name='posts')


class Prize(models.Model):
    name = models.CharField(max_length=20, default='')
    posts = models.ManyToManyField(Post, related_name='+')
    n_hidden = CountField('posts', filter={'hidden': True, 'words__lte': 5})
    n_other = CountField('posts', exclude={'hidden': True, 'words__lt': 4})
