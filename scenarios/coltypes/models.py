"""Rows of many column types and options, copied by dependent rows and by the rows themselves: every column change has to
be noticed."""
from django.db import models
from denorm import denormalized, depend_on_related


class Loose(models.TextField):
    """compares equal if only the case differs"""

    def db_type(self, connection):
        return {'sqlite': 'text COLLATE NOCASE', 'postgresql': 'citext'}.get(connection.vendor, 'longtext')


class Json(models.Field):
    """a type PostgreSQL can't compare"""

    def get_internal_type(self):
        return 'Json'

    def db_type(self, connection):
        return 'json' if connection.vendor == 'postgresql' else 'text'

    def get_prep_value(self, value):
        return str(value) if isinstance(value, int) else value

    def from_db_value(self, value, expression, connection, context):
        return int(value) if isinstance(value, str) else value

COLS = {
    'num': (models.IntegerField, {}),
    'big': (models.BigIntegerField, {}),
    'small': (models.SmallIntegerField, {}),
    'flag': (models.NullBooleanField, {}),
    'name': (models.CharField, {'max_length': 50}),
    'note': (models.TextField, {}),
    'slug': (models.SlugField, {}),
    'mail': (models.EmailField, {}),
    'url': (models.URLField, {}),
    'path': (models.CharField, {'max_length': 100}),
    'day': (models.DateField, {}),
    'when': (models.DateTimeField, {}),
    'clock': (models.TimeField, {}),
    'span': (models.DurationField, {}),
    'price': (models.DecimalField, {'max_digits': 8, 'decimal_places': 2}),
    'ratio': (models.FloatField, {}),
    'pos': (models.PositiveIntegerField, {}),
    'blob': (models.BinaryField, {}),
    'code': (models.UUIDField, {}),
    'ip': (models.GenericIPAddressField, {}),
    'stamp': (models.DateTimeField, {}),
    'born': (models.DateField, {}),
    'hidden': (models.IntegerField, {}),
    'sole': (models.IntegerField, {}),
    'choice': (models.CharField, {'max_length': 50}),
    'indexed': (models.IntegerField, {}),
    'renamed': (models.IntegerField, {}),
    'loose': (Loose, {}),
    'doc': (Json, {}),
}


class Columns(models.Model):
    num = models.IntegerField(null=True)
    big = models.BigIntegerField(default=0)
    small = models.SmallIntegerField(default=0)
    flag = models.BooleanField(default=False)
    name = models.CharField(max_length=50, default='')
    note = models.TextField(null=True)
    slug = models.SlugField(default='')
    mail = models.EmailField(default='')
    url = models.URLField(blank=True)
    path = models.FileField(null=True)
    day = models.DateField(null=True)
    when = models.DateTimeField(null=True)
    clock = models.TimeField(null=True)
    span = models.DurationField(null=True)
    price = models.DecimalField(max_digits=8, decimal_places=2, null=True)
    ratio = models.FloatField(null=True)
    pos = models.PositiveIntegerField(default=0)
    blob = models.BinaryField(null=True)
    code = models.UUIDField(null=True)
    ip = models.GenericIPAddressField(null=True)
    stamp = models.DateTimeField(auto_now=True)
    born = models.DateField(auto_now_add=True)
    hidden = models.IntegerField(default=0, editable=False)
    sole = models.IntegerField(null=True, unique=True)
    choice = models.CharField(max_length=50, null=True, choices=[('a', 'A'), ('b', 'B')])
    indexed = models.IntegerField(default=0, db_index=True, help_text='indexed')
    renamed = models.IntegerField(default=0, db_column='other_column')
    loose = Loose(null=True)
    doc = Json(null=True)

    class Meta:
        abstract = True


class Source(Columns):
    flag2 = models.NullBooleanField()


def copies(name):
    """one computed field per column"""
    def function(c):
        def get(self):
            return getattr(self.source, c) if self.source is not None else None

        def own(self):
            return getattr(self, c)
        f = get if name == 'Copy' else own
        f.__name__ = 'c_' + c
        return f
    out = {}
    for c, (field, kw) in COLS.items():
        f = function(c)
        if name == 'Copy':
            f = depend_on_related(Source)(f)
        out['c_' + c] = denormalized(field, null=True, **kw)(f)
    return out


class Base(models.Model):
    class Meta:
        abstract = True


Copy = type(Base)('Copy', (Base,), dict(copies('Copy'), __module__=__name__, source=models.ForeignKey(
    Source, null=True, on_delete=models.CASCADE)))
Own = type(Base)('Own', (Columns,), dict(copies('Own'), __module__=__name__))
