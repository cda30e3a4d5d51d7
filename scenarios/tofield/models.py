"""Foreign keys that refer to another unique column than the primary key."""
from django.db import models
from denorm import denormalized, depend_on_related, CountField, CacheKeyField
from denorm.fields import SumField


class Room(models.Model):
    code = models.IntegerField(unique=True)
    val = models.IntegerField(default=0)


class Desk(models.Model):
    room = models.ForeignKey(Room, to_field='code', null=True, on_delete=models.CASCADE)
    fwd_key = CacheKeyField()
    fwd_key.depend_on_related(Room)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Room)
    def room_val(self):
        return self.room.val if self.room else -1


class Shelf(models.Model):
    code = models.IntegerField(unique=True, db_column='shelf_code')
    n_books = CountField('book_set')
    pages = SumField('book_set', field='pages')
    back_key = CacheKeyField()
    back_key.depend_on_related('Book')


class Book(models.Model):
    shelf = models.ForeignKey(Shelf, to_field='code', null=True, on_delete=models.CASCADE, db_column='on_shelf')
    pages = models.PositiveIntegerField(default=0)


class Team(models.Model):
    code = models.IntegerField(unique=True)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Player')
    def points(self):
        return sum(p.points for p in self.player_set.all())


class Player(models.Model):
    team = models.ForeignKey(Team, to_field='code', null=True, on_delete=models.CASCADE)
    points = models.IntegerField(default=0)
