"""Computed fields that read columns their model, or the model they depend on, inherits from another table."""
from django.db import models
from denorm import denormalized, depend_on_related


class Place(models.Model):
    val = models.IntegerField(default=0)


class Cafe(Place):
    seats = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def size(self):
        return self.val + self.seats


class Visit(models.Model):
    cafe = models.ForeignKey(Cafe, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Cafe)
    def place_val(self):
        return self.cafe.val if self.cafe is not None else 0


class Corner(models.Model):
    cafe = models.ForeignKey(Cafe, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Cafe)
    def both(self):
        return self.cafe.val + self.cafe.seats if self.cafe is not None else 0
