"""Counts and sums over many-to-many relations, seen from both sides."""
from django.db import models
from denorm import CountField
from denorm.fields import SumField


class Topic(models.Model):
    n_posts = CountField('posts')
    words = SumField('posts', field='words')


class Author(models.Model):
    num = models.AutoField(primary_key=True, db_column='author_num')
    fame = models.PositiveIntegerField(default=0, null=True)


class Post(models.Model):
    words = models.PositiveIntegerField(default=0)
    topics = models.ManyToManyField(Topic, related_name='posts')
    authors = models.ManyToManyField(Author, related_name='+')
    n_authors = CountField('authors')
    fame = SumField('authors', field='fame')
