"""Several relations between the same two models, told apart by foreign_key= and type=."""
from django.db import models
from denorm import denormalized, depend_on_related


class Person(models.Model):
    val = models.IntegerField(default=0)
    boss_of = models.ForeignKey('Task', null=True, related_name='bosses', on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Task', foreign_key='doer')
    def doing(self):
        return sum(t.val for t in Task.objects.filter(doer_id=self.pk))

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Task', foreign_key='tester', type='backward')
    def testing(self):
        return sum(t.val for t in Task.objects.filter(tester_id=self.pk))

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Task', type='forward')
    def boss_val(self):
        return self.boss_of.val if self.boss_of is not None else 0


class Task(models.Model):
    val = models.IntegerField(default=0)
    doer = models.ForeignKey(Person, null=True, related_name='done', on_delete=models.CASCADE)
    tester = models.ForeignKey(Person, null=True, related_name='tested', on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Person, foreign_key='doer')
    @depend_on_related(Person, foreign_key='tester')
    def pair(self):
        a = self.doer.val if self.doer is not None else 0
        b = self.tester.val if self.tester is not None else 0
        return a * 2 + b
