"""Abstract bases, multi-table inheritance, proxies and swapped models."""
from django.db import models
from denorm import denormalized, depend_on_related, CountField, CacheKeyField


class Stock(models.Model):
    val = models.IntegerField(default=0)


class StockProxy(Stock):
    class Meta:
        proxy = True


class BaseShop(models.Model):
    """abstract: every child class gets its own tracked fields"""
    own = models.IntegerField(default=0)
    stock = models.ForeignKey(Stock, null=True, on_delete=models.CASCADE)
    key = CacheKeyField()
    key.depend_on_related(Stock)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Stock)
    def stock_val(self):
        return (self.stock.val if self.stock is not None else 0) + self.own

    class Meta:
        abstract = True


class ShopA(BaseShop):
    pass


class ShopB(BaseShop):
    extra = models.IntegerField(default=0)


class Shelf(models.Model):
    """abstract holder of a count"""
    n_books = CountField('books')

    class Meta:
        abstract = True


class ShelfA(Shelf):
    name = models.IntegerField(default=0)


class ShelfB(Shelf):
    name = models.IntegerField(default=0)


class BookA(models.Model):
    shelf = models.ForeignKey(ShelfA, null=True, related_name='books', on_delete=models.CASCADE)


class BookB(models.Model):
    shelf = models.ForeignKey(ShelfB, null=True, related_name='books', on_delete=models.CASCADE)


class Place(models.Model):
    """concrete parent with its own computed field"""
    val = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def val2(self):
        return self.val * 2


class Cafe(Place):
    seats = models.IntegerField(default=0)
    stock = models.ForeignKey(Stock, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Stock)
    def menu(self):
        return (self.stock.val if self.stock is not None else 0) + self.seats


class Table(models.Model):
    cafe = models.ForeignKey(Cafe, null=True, on_delete=models.CASCADE)
    own = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Cafe)
    def cafe_seats(self):
        return self.cafe.seats if self.cafe is not None else 0


class ProxyUser(models.Model):
    stock = models.ForeignKey(StockProxy, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(StockProxy)
    def pval(self):
        return self.stock.val if self.stock is not None else 0


class Swapped(models.Model):
    stock = models.ForeignKey(Stock, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Stock)
    def sval(self):
        return self.stock.val if self.stock is not None else 0

    class Meta:
        swappable = 'INHERIT_SWAPPED_MODEL'


class Replacement(models.Model):
    stock = models.ForeignKey(Stock, null=True, on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Stock)
    def sval(self):
        return self.stock.val if self.stock is not None else 0
