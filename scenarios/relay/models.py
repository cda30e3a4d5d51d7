"""A row that depends on a computed field and on what that field is computed from: it has to be
computed again when it was computed too early."""
from django.db import models
from denorm import denormalized, depend_on_related


class Src(models.Model):
    val = models.IntegerField(default=0)


class Mid(models.Model):
    src = models.ForeignKey(Src, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Src)
    def d(self):
        return self.src.val + 1


class Top(models.Model):
    mid = models.ForeignKey(Mid, on_delete=models.CASCADE)
    src = models.ForeignKey(Src, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Mid)
    def e(self):
        return self.mid.d + 2

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Src)
    def f(self):
        return self.src.val + 3
