"""Many-to-many relations depended on from both ends: automatic and explicit intermediate tables."""
from django.db import models
from denorm import denormalized, depend_on_related


class Label(models.Model):
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Article')
    def article_total(self):
        if self.pk is None:
            return 0
        return sum(a.val for a in self.article_set.all())


class Article(models.Model):
    val = models.IntegerField(default=0)
    labels = models.ManyToManyField(Label)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Label)
    def label_total(self):
        if self.pk is None:
            return 0
        return sum(t.val for t in self.labels.all())
