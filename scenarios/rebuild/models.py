"""Everything a rebuild has to repair: chains, counts, sums, computed foreign keys and many-to-many
fields, a hiding default manager, a model without computed fields of its own kind."""
from django.db import models
from denorm import denormalized, depend_on_related, CountField
from denorm.fields import SumField


class Visible(models.Manager):
    def get_queryset(self):
        return super(Visible, self).get_queryset().filter(hidden=0)


class Owner(models.Model):
    hidden = models.IntegerField(default=0)
    n_pets = CountField('pet_set')
    weight = SumField('pet_set', field='weight')

    objects = Visible()

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Pet')
    def score(self):
        return sum(p.rank for p in self.pet_set.all())


class Pet(models.Model):
    owner = models.ForeignKey(Owner, null=True, on_delete=models.CASCADE)
    weight = models.PositiveIntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def rank(self):
        return self.weight + 1


class Visit(models.Model):
    pet = models.ForeignKey(Pet, on_delete=models.CASCADE)

    @denormalized(models.ManyToManyField, Pet, related_name='+')
    @depend_on_related(Pet, foreign_key='pet')
    def patients(self):
        return [self.pet] if self.pet.weight > 3 else []
