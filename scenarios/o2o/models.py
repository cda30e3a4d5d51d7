"""One-to-one relation, nullable, depended on from both sides."""
from django.db import models
from denorm import denormalized, depend_on_related


class Owner(models.Model):
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Card')
    def card_val(self):
        return sum(c.val for c in Card.objects.filter(owner_id=self.pk))


class Card(models.Model):
    owner = models.OneToOneField(Owner, null=True, on_delete=models.CASCADE)
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0, null=True)
    @depend_on_related(Owner)
    def owner_val(self):
        return self.owner.val if self.owner is not None else None
