"""Many-to-many through a declared model, and a many-to-many to self."""
from django.db import models
from denorm import denormalized, depend_on_related


class Club(models.Model):
    val = models.IntegerField(default=0)
    members = models.ManyToManyField('Player', through='Membership')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Player')
    def strength(self):
        if self.pk is None:
            return 0
        return sum(p.val for p in self.members.all())


class Player(models.Model):
    val = models.IntegerField(default=0)
    friends = models.ManyToManyField('self', symmetrical=False, related_name='fans')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related("Club")
    def club_total(self):
        if self.pk is None:
            return 0
        return sum(c.val for c in self.club_set.all())

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='forward_m2m')
    def friend_total(self):
        if self.pk is None:
            return 0
        return sum(c.val for c in self.friends.all())

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='backward_m2m')
    def fan_total(self):
        if self.pk is None:
            return 0
        return sum(c.val for c in self.fans.all())


class Membership(models.Model):
    since = models.IntegerField(default=0)
    player = models.ForeignKey(Player, on_delete=models.CASCADE)
    club = models.ForeignKey(Club, on_delete=models.CASCADE)
