"""Models whose instances are false, equal to everything, hidden from their manager, ordered, or keyed by text."""
from django.db import models
from denorm import denormalized


class Nothing(models.Manager):
    def get_queryset(self):
        return super(Nothing, self).get_queryset().none()


class Falsy(models.Model):
    val = models.IntegerField(default=0)

    class Meta:
        ordering = ('-val',)

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = models.Model.__hash__

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return self.val * 2


class Hidden(models.Model):
    val = models.IntegerField(default=0)

    found = Nothing()

    @denormalized(models.IntegerField, default=0)
    def thrice(self):
        return self.val * 3


class Named(models.Model):
    key = models.CharField(max_length=20, primary_key=True)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def more(self):
        return self.val + 1
