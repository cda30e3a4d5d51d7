"""Cached fields over forward and backward foreign keys and a many-to-many relation."""
from django.db import models
from denorm import cached, depend_on_related
from symdb.cachestub import STORE


class Source(models.Model):
    val = models.IntegerField(default=0)


class Thing(models.Model):
    source = models.ForeignKey(Source, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @cached(STORE)
    @depend_on_related(Source)
    @depend_on_related('Part')
    def summary(self):
        total = self.val
        if self.source_id is not None:
            total += self.source.val * 2
        if self.pk is not None:
            total += sum(p.val for p in self.part_set.all())
        return total


class Part(models.Model):
    thing = models.ForeignKey(Thing, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)
