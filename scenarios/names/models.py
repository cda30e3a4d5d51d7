"""Custom primary keys, column names, table names, reserved words, mixed case, long names."""
from django.db import models
from denorm import denormalized, depend_on_related, CountField, CacheKeyField
from denorm.fields import SumField


class Country(models.Model):
    code = models.CharField(max_length=10, primary_key=True)
    val = models.IntegerField(default=0, db_column='Value')
    n_cities = CountField('towns')

    class Meta:
        db_table = 'order'


class City(models.Model):
    number = models.IntegerField(primary_key=True, db_column='cityNo')
    country = models.ForeignKey(Country, null=True, related_name='towns', db_column='group', on_delete=models.CASCADE)
    size = models.IntegerField(default=0, db_column='select')

    @denormalized(models.IntegerField, default=0, db_column='countryVal')
    @depend_on_related(Country)
    def country_val(self):
        return self.country.val if self.country is not None else 0

    @denormalized(models.IntegerField, default=0, db_column='Double')
    def double(self):
        return self.size * 2

    class Meta:
        db_table = 'CityTable'


class Summary(models.Model):
    id = models.AutoField(primary_key=True, db_column='ID')
    country = models.ForeignKey(Country, db_column='Land', on_delete=models.CASCADE)

    @denormalized(models.IntegerField, default=0, db_column='Key')
    @depend_on_related('Line')
    def total(self):
        return sum(x.amount for x in self.line_set.all())

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('Part')
    def parts(self):
        return sum(x.amount for x in self.part_set.all())

    class Meta:
        db_table = 'summary_of_a_rather_long_table_name_that_hits_the_limits'


class Part(models.Model):
    summary = models.ForeignKey(Summary, null=True, on_delete=models.CASCADE)
    amount = models.IntegerField(default=0)

    @denormalized(models.IntegerField, default=0)
    def twice(self):
        return self.amount * 2

    class Meta:
        db_table = 'summary_of_a_rather_long_table_name_that_hits_the_parts'


class Line(models.Model):
    id = models.AutoField(primary_key=True, db_column='lineId')
    summary = models.ForeignKey(Summary, null=True, db_column='sumRef', on_delete=models.CASCADE)
    amount = models.IntegerField(default=0, db_column='from')

    class Meta:
        db_table = 'Line'


class Label(models.Model):
    id = models.AutoField(primary_key=True, db_column='labelId')
    val = models.IntegerField(default=0, db_column='Weight')


class Parcel(models.Model):
    id = models.AutoField(primary_key=True, db_column='parcelId')
    labels = models.ManyToManyField(Label, db_table='ParcelLabels')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related(Label)
    def weight(self):
        if self.pk is None:
            return 0
        return sum(l.val for l in self.labels.all())

    class Meta:
        db_table = 'Parcel'


class Account(models.Model):
    number = models.AutoField(primary_key=True, db_column='accNo')
    total = SumField('entries', field='amount', db_column='Total')
    n = CountField('entries', db_column='Number')
    key = CacheKeyField(db_column='Key')
    key.depend_on_related('Entry')

    class Meta:
        db_table = 'Account'


class Entry(models.Model):
    account = models.ForeignKey(Account, null=True, related_name='entries', db_column='Acc', on_delete=models.CASCADE)
    amount = models.PositiveIntegerField(default=0, db_column='Amount')

    class Meta:
        db_table = 'table'
