"""Columns declared irrelevant: per dependency, per field, per model, and both together."""
from django.db import models
from denorm import denormalized, depend_on_related


class Post(models.Model):
    val = models.IntegerField(default=0)
    seen = models.IntegerField(default=0)

    denorm_always_skip = ('seen',)


class Note(models.Model):
    post = models.ForeignKey(Post, null=True, on_delete=models.CASCADE)
    own = models.IntegerField(default=0)
    stamp = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0, skip=('stamp',))
    @depend_on_related(Post)
    def post_val(self):
        return (self.post.val if self.post is not None else 0) + self.own


class Both(models.Model):
    post = models.ForeignKey(Post, null=True, on_delete=models.CASCADE)
    own = models.IntegerField(default=0)
    stamp = models.IntegerField(default=0)
    touched = models.IntegerField(default=0)
    renamed = models.IntegerField(default=0, db_column='other_column')

    denorm_always_skip = ('stamp',)

    @denormalized(models.IntegerField, default=0, skip=('touched', 'post_id', 'renamed'))
    def own_val(self):
        return self.own + 1


class Owner(models.Model):
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Thing', skip=('weight', 'colour'))
    def total(self):
        return sum(t.val for t in self.thing_set.all())


class Thing(models.Model):
    owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)
    weight = models.IntegerField(default=0)
    colour = models.IntegerField(default=0)
