"""Several dependencies that watch the same table with different ideas of what matters."""
from django.db import models
from denorm import denormalized, depend_on_related


class Team(models.Model):
    val = models.IntegerField(default=0)
    players = models.ManyToManyField('Athlete', through='Contract')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Athlete')
    def strength(self):
        if self.pk is None:
            return 0
        return sum(p.val for p in self.players.all())

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Contract')
    def payroll(self):
        return sum(c.pay for c in self.contract_set.all())


class Athlete(models.Model):
    val = models.IntegerField(default=0)
    noise = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Contract')
    def income(self):
        return sum(c.pay for c in self.contract_set.all())


class Contract(models.Model):
    pay = models.IntegerField(default=0)
    bonus = models.IntegerField(default=0)
    athlete = models.ForeignKey(Athlete, on_delete=models.CASCADE)
    team = models.ForeignKey(Team, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Athlete, skip=('val',))
    def noise_copy(self):
        return self.athlete.noise

    @denormalized(models.IntegerField, default=0, skip=('bonus',))
    def double_pay(self):
        return self.pay * 2

    @denormalized(models.IntegerField, default=0, skip=('pay',))
    def double_bonus(self):
        return self.bonus * 2
