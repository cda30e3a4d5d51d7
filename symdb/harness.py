"""Boots Django on the symbolic engines (or on a real database, for replay), derives the schema
from the scenario's models, builds symbolic states, and moves states between the two worlds."""
import datetime
import decimal
import importlib
import os
import sys

from .terms import (z3, And, Or, Not, Eq, SVal, const, text_code, text_of, TEXT_BASE, SYM_BASE, SYM_N, same, _num, Implies,
                    TEXTS as TEXTUAL)
from .store import Database, Table, Column, Row, Unsupported
from . import engine, explore

SCN_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'scenarios')
CT_BASE = 11
TEXTS = ['', 'a', 'A']           # constants every text column may also hold
PAY = 1000                       # payload integers range over [-PAY, PAY]


def boot(app, dialect, real=None, extra=None):
    """configure Django with the scenario app on the symbolic engine, or on `real` (a DATABASES entry)"""
    from . import chance
    chance.install()
    repo = os.environ.get('DENORM_REPO', '/repo')
    sys.path.insert(0, SCN_DIR)
    sys.path.insert(0, repo)
    os.environ['SCN_DIALECT'] = dialect
    from django.conf import settings
    dbs = real or {'ENGINE': 'symdb.backends.%s' % dialect, 'NAME': 'sym'}
    conf = dict(
        DATABASES={'default': dbs, 'other': dict(dbs)},
        INSTALLED_APPS=['django.contrib.contenttypes', 'denorm', app],
        SECRET_KEY='x', USE_TZ=False, DEBUG=False,
        CACHES={'default': {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache'}},
        LOGGING_CONFIG=None,
    )
    mod = importlib.import_module(app)
    conf.update(getattr(mod, 'SETTINGS', {}))
    conf.update(extra or {})
    settings.configure(**conf)
    import django
    django.setup()
    import denorm
    if not os.path.abspath(denorm.__file__).startswith(os.path.abspath(repo) + os.sep):
        raise RuntimeError('denorm was not loaded from %s' % repo)
    return importlib.import_module(app + '.models')


INT_TYPES = ('AutoField', 'BigAutoField', 'IntegerField', 'BigIntegerField', 'SmallIntegerField',
             'PositiveIntegerField', 'PositiveSmallIntegerField', 'BooleanField', 'NullBooleanField')
TEXT_TYPES = ('CharField', 'TextField', 'SlugField', 'URLField', 'FilePathField', 'FileField', 'EmailField',
              'CommaSeparatedIntegerField')


def leaf_field(f):
    while f.remote_field is not None and getattr(f, 'target_field', None) is not None and f.is_relation:
        f = f.target_field
    return f


def codec(f):
    t = leaf_field(f).get_internal_type()
    if t in ('BooleanField', 'NullBooleanField'):
        return 'bool'
    if t in INT_TYPES:
        return 'int'
    if t in TEXT_TYPES:
        return 'text'
    return {'DateField': 'date', 'DateTimeField': 'datetime', 'DecimalField': 'decimal', 'FloatField': 'float',
            'TimeField': 'time', 'DurationField': 'duration', 'BinaryField': 'binary', 'UUIDField': 'uuid',
            'GenericIPAddressField': 'ip', 'Json': 'json'}.get(t, 'text')


def all_models():
    from django.apps import apps
    return [m for m in apps.get_models(include_auto_created=True, include_swapped=False)
            if not m._meta.proxy and m._meta.managed and not m._meta.swapped]


def collation(db_type):
    """how the column compares, where its type says so"""
    t = (db_type or '').lower()
    return 'ci' if t == 'citext' or 'nocase' in t else 'json' if t == 'json' else None


class Schema(object):
    """tables of the project, derived from the models Django loaded"""

    def __init__(self, dialect, id_columns=()):
        self.dialect = dialect
        self.models = {}
        self.tables = {}
        self.folds = dialect == 'mysql'
        self.codecs = {}
        self.order = []
        self.ct = {}
        from django.contrib.contenttypes.models import ContentType
        from django.db import connection
        from denorm.models import DirtyInstance
        self.dirty = DirtyInstance._meta.db_table
        self.ct_table = ContentType._meta.db_table
        n = CT_BASE
        from django.apps import apps
        for m in apps.get_models(include_auto_created=True):
            self.ct[m] = n
            n += 1
        self.ghost = n              # content type of a model that no longer exists
        for m in all_models():
            cols = []
            fks = {}
            t = m._meta.db_table
            for f in m._meta.local_concrete_fields:
                c = codec(f)
                self.codecs[t, f.column] = c
                internal = leaf_field(f).get_internal_type()
                rel = f.is_relation
                kind = collation(f.db_type(connection)) or ('text' if c == 'text' else 'int')
                if kind == 'ci':
                    self.folds = True
                payload = not rel and not f.primary_key and c in ('int', 'text') and f.column not in id_columns \
                    and '%s.%s' % (t, f.column) not in id_columns
                cols.append(Column(f.column, kind, null=f.null, nonneg=internal.startswith('Positive') and not rel,
                                   payload=payload, boolean=c == 'bool'))
                if rel and f.db_constraint is not None:
                    fks[f.column] = (f.remote_field.model._meta.db_table, f.target_field.column)
            pk = m._meta.pk
            uniques = [(f.column,) for f in m._meta.local_concrete_fields if f.unique and not f.primary_key]
            for ut in m._meta.unique_together:
                uniques.append(tuple(m._meta.get_field(x).column for x in ut))
            tab = Table(t, cols, pk.column, fks, auto='AutoField' in pk.get_internal_type(), uniques=uniques)
            tab.model = m
            self.models[t] = m
            self.tables[t] = tab
            self.order.append(t)

    def new_db(self):
        db = Database(self.dialect)
        for t in self.order:
            db.add_table(self.tables[t])
        for m, n in self.ct.items():
            db.data[self.ct_table].append(Row(True, {
                'id': SVal(False, n), 'app_label': const(m._meta.app_label), 'model': const(m._meta.model_name)}))
        db.data[self.ct_table].append(Row(True, {
            'id': SVal(False, self.ghost), 'app_label': const('gone'), 'model': const('ghost')}))
        return db

    def table(self, x):
        return x if isinstance(x, str) else x._meta.db_table


# ---- views: what specifications look at ------------------------------------------------

class VRow(object):
    def __init__(self, exists, cols):
        self.exists = exists
        self.cols = cols

    def __getitem__(self, c):
        return self.cols[c]


class View(object):
    """a database state, symbolic or concrete; rows keep their slot order"""

    def __init__(self, schema, data):
        self.schema = schema
        self.data = data

    def rows(self, model):
        t = self.schema.table(model)
        return [VRow(r.guard, r.cols) for r in self.data.get(t, ()) if r.guard is not False]

    def slots(self, model):
        t = self.schema.table(model)
        return [VRow(r.guard, r.cols) for r in self.data.get(t, ())]

    def pk(self, model):
        return self.schema.tables[self.schema.table(model)].pk

    def find(self, model, val, col=None):
        """(found, {column: value}) of the row whose pk (or col) equals val"""
        t = self.schema.table(model)
        tab = self.schema.tables[t]
        col = col or tab.pk
        from .terms import SIte
        found = False
        out = dict((c, SVal(True, 0, tab.columns[c].kind)) for c in tab.columns)
        for r in self.rows(t):
            hit = And(r.exists, Not(val.null), Not(r[col].null), Eq(r[col].v, val.v))
            if hit is False:
                continue
            found = Or(found, hit)
            out = dict((c, SIte(hit, r[c], out[c])) for c in out)
        return found, out

    def marked(self, model, pkval):
        ct = self.schema.ct[model]
        hits = []
        for r in self.rows(self.schema.dirty):
            hits.append(And(r.exists, Eq(r['content_type_id'].v, ct), Not(r['object_id'].null),
                            Eq(r['object_id'].v, pkval.v)))
        return Or(*hits)


def eqv(a, b):
    """SQL equality of two values, NULL never equal"""
    return And(Not(a.null), Not(b.null), Eq(a.v, b.v))


# ---- symbolic states ---------------------------------------------------------------------

class State(object):
    """constraints on a symbolic initial database plus its variables"""

    def __init__(self, schema, db, prefix=''):
        self.schema = schema
        self.db = db
        self.cons = []
        self.prefix = prefix

    def var(self, name):
        return z3.Int(self.prefix + name)

    def bvar(self, name):
        return z3.Bool(self.prefix + name)

    def domain(self, tab, col, v, sizes, extra):
        """range of one column value"""
        t = tab.name
        key = '%s.%s' % (t, col.name)
        if key in extra:
            lo, hi = extra[key]
            return And(v >= lo, v <= hi)
        if col.name in tab.fks:
            target, tcol = tab.fks[col.name]
            if target == self.schema.ct_table:
                cts = sorted(self.schema.ct.values())
                return And(v >= cts[0], v <= cts[-1])
            if col.kind in TEXTUAL:
                return Or(*[v == text_code('key%d' % i) for i in range(1, sizes.get(target, 0) + 2)])
            return And(v >= 1, v <= sizes.get(target, 0) + 1)
        if col.boolean:
            return And(v >= 0, v <= 1)
        if col.kind in TEXTUAL:
            return Or(And(v >= SYM_BASE - SYM_N, v <= SYM_BASE - 1), *[v == text_code(x) for x in TEXTS + getattr(self.schema, 'texts', [])])
        if col.nonneg:
            return And(v >= 0, v <= PAY)
        return And(v >= -PAY, v <= PAY)

    def symbolic_row(self, t, name, pk, sizes, extra):
        tab = self.schema.tables[t]
        cols = {}
        for c, col in tab.columns.items():
            if c == tab.pk and pk is not None:
                cols[c] = pk
                continue
            v = self.var('%s.%s' % (name, c))
            null = self.bvar('%s.%s.null' % (name, c)) if col.null else False
            self.cons.append(Implies(Not(null), self.domain(tab, col, v, sizes, extra)))
            if col.null:
                self.cons.append(Implies(null, v == 0))
            cols[c] = SVal(null, v, col.kind)
        return cols

    def populate(self, sizes, extra=None, always=()):
        """`sizes`: table -> number of row slots"""
        extra = extra or {}
        for t, n in sizes.items():
            tab = self.schema.tables[t]
            for i in range(n):
                g = True if t in always else self.bvar('%s%d.exists' % (t, i + 1))
                pkcol = tab.columns[tab.pk]
                if tab.pk in tab.fks:          # multi-table child or one-to-one primary key
                    pk = SVal(False, i + 1, pkcol.kind)
                elif pkcol.kind == 'text':
                    pk = SVal(False, text_code('key%d' % (i + 1)), 'text')
                else:
                    pk = SVal(False, i + 1, pkcol.kind)
                cols = self.symbolic_row(t, '%s%d' % (t, i + 1), pk, sizes, extra)
                self.db.data[t].append(Row(g, cols))
        for t in sizes:
            self.uniqueness(t, self.db.data)

    def uniqueness(self, t, data):
        tab = self.schema.tables[t]
        rows = data[t]
        for u in tab.uniques:
            for i in range(len(rows)):
                for j in range(i):
                    a, b = rows[i], rows[j]
                    clash = And(a.guard, b.guard, *[And(Not(a.cols[c].null), Not(b.cols[c].null),
                                                        Eq(a.cols[c].v, b.cols[c].v)) for c in u])
                    self.cons.append(Not(clash))

    def integrity(self, data, tables, skip=()):
        """foreign keys point at existing rows"""
        out = []
        for t in tables:
            tab = self.schema.tables[t]
            for c, (target, tcol) in tab.fks.items():
                if '%s.%s' % (t, c) in skip or target == self.schema.ct_table:
                    continue
                for r in data[t]:
                    if r.guard is False:
                        continue
                    ok = Or(*[And(p.guard, eqv(r.cols[c], p.cols[tcol])) for p in data[target] if p.guard is not False])
                    out.append(Implies(And(r.guard, Not(r.cols[c].null)), ok))
        return And(*out)

    def mark_slots(self, pairs):
        """one optional mark per (model, pk value)"""
        for i, (m, pk) in enumerate(pairs):
            g = self.bvar('mark%d' % i)
            self.db.data[self.schema.dirty].append(Row(g, {
                'id': SVal(False, i + 1), 'content_type_id': SVal(False, self.schema.ct[m]),
                'object_id': SVal(False, pk.v, 'text')}))

    def free_marks(self, k, cts, max_oid, allow_null=True, text_cts=()):
        """k marks with arbitrary content; models in text_cts have textual keys"""
        for i in range(k):
            ct = self.var('mark%d.ct' % i)
            oid = self.var('mark%d.oid' % i)
            null = self.bvar('mark%d.null' % i) if allow_null else False
            self.cons.append(Or(*[ct == c for c in cts]))
            named = Or(*[ct == c for c in text_cts])
            ok = And(oid >= 1, oid <= max_oid)
            if text_cts:
                ok = Or(And(Not(named), ok), And(named, Or(*[oid == text_code('key%d' % j) for j in range(1, max_oid + 1)])))
            if allow_null:
                self.cons.append(Implies(null, oid == 1))
                ok = Or(null, ok)
            self.cons.append(ok)
            self.db.data[self.schema.dirty].append(Row(self.bvar('mark%d' % i), {
                'id': SVal(False, i + 1), 'content_type_id': SVal(False, ct),
                'object_id': SVal(null, oid, 'text')}))


# ---- concrete values <-> codes -------------------------------------------------------------

class Texts(object):
    """strings for symbolic text codes; texts in one collation class differ only in case"""

    def __init__(self, folds=None):
        self.folds = folds or {}

    def text(self, code):
        t = text_of(code)
        if t is not None:
            return t
        k = SYM_BASE - code
        cls = self.folds.get(code, code)
        name = 'text%dx' % (SYM_BASE - cls)
        bits = format(k, '06b')
        return name + ''.join('Q' if b == '1' else 'q' for b in bits)


def eval_int(model, term):
    if _num(term):
        return term
    r = model.eval(term, model_completion=True)
    if z3.is_int_value(r):
        return r.as_long()
    raise Unsupported('not a number in the model: %s' % r)


def eval_bool(model, term):
    if isinstance(term, bool):
        return term
    return z3.is_true(model.eval(term, model_completion=True))


def eval_val(model, sv):
    if eval_bool(model, sv.null):
        return None
    return eval_int(model, sv.v)


def eval_rows(model, rows, tab):
    """[{col: code or None}] for the rows that exist in the model"""
    out = []
    for r in rows:
        if eval_bool(model, r.guard):
            out.append(dict((c, eval_val(model, r.cols[c])) for c in tab.columns))
    return out


def eval_data(model, schema, data, tables):
    return dict((t, eval_rows(model, data[t], schema.tables[t])) for t in tables)


def fold_classes(model):
    """code -> class of MySQL's collation in this model"""
    from .terms import _fold
    out = {}
    for i in range(1, SYM_N + 1):
        code = SYM_BASE - i
        out[code] = model.eval(_fold(z3.IntVal(code)), model_completion=True).as_long()
    return out


EPOCH = datetime.date(2000, 1, 1)


def to_python(codec_, code, texts):
    if code is None:
        return None
    if codec_ == 'int':
        return code
    if codec_ == 'bool':
        return bool(code)
    if codec_ == 'text':
        return texts.text(code) if code < 0 else str(code)
    if codec_ == 'date':
        return EPOCH + datetime.timedelta(days=code)
    if codec_ == 'datetime':
        return datetime.datetime(2000, 1, 1) + datetime.timedelta(minutes=code)
    if codec_ == 'time':
        return (datetime.datetime(2000, 1, 1, 12) + datetime.timedelta(seconds=code)).time()
    if codec_ == 'duration':
        return datetime.timedelta(seconds=code)
    if codec_ == 'decimal':
        return decimal.Decimal(code) / 100
    if codec_ == 'float':
        return float(code)
    if codec_ == 'json':
        return str(code)
    if codec_ == 'binary':
        return b'%d' % code
    if codec_ == 'uuid':
        import uuid
        return uuid.UUID(int=code + 10 ** 6)
    if codec_ == 'ip':
        return '10.0.%d.%d' % ((code + 2000) // 250, (code + 2000) % 250)
    raise Unsupported('codec %s' % codec_)


def from_python(codec_, v, rev):
    """database value -> code; `rev` maps the texts used in this replay to their codes"""
    if v is None:
        return None
    if codec_ in ('int', 'bool', 'json'):
        return int(v)
    if codec_ == 'text':
        return rev.get(v, None) if v in rev else text_code(v)
    if codec_ == 'date':
        if isinstance(v, str):
            v = datetime.datetime.strptime(v, '%Y-%m-%d').date()
        return (v - EPOCH).days
    if codec_ == 'datetime':
        if isinstance(v, str):
            v = datetime.datetime.strptime(v[:19], '%Y-%m-%d %H:%M:%S')
        return int((v - datetime.datetime(2000, 1, 1)).total_seconds() // 60)
    if codec_ == 'time':
        if isinstance(v, str):
            v = datetime.datetime.strptime(v[:8], '%H:%M:%S').time()
        if isinstance(v, datetime.timedelta):
            return int(v.total_seconds()) - 12 * 3600
        return (v.hour - 12) * 3600 + v.minute * 60 + v.second
    if codec_ == 'duration':
        if isinstance(v, datetime.timedelta):
            return int(v.total_seconds())
        return int(v) // 10 ** 6
    if codec_ == 'decimal':
        return int(round(decimal.Decimal(str(v)) * 100))
    if codec_ == 'float':
        return int(v)
    if codec_ == 'binary':
        return int(bytes(v))
    if codec_ == 'uuid':
        import uuid
        return uuid.UUID(str(v)).int - 10 ** 6
    if codec_ == 'ip':
        p = str(v).split('/')[0].split('.')
        return int(p[2]) * 250 + int(p[3]) - 2000
    raise Unsupported('codec %s' % codec_)


# ---- Django adjustments for symbolic values -----------------------------------------------

def patch_django():
    """Django's value coercions (int(), str()) leave symbolic values alone."""
    from django.db.models import fields
    from .explore import SymVal

    def keep(cls, name):
        orig = getattr(cls, name)

        def method(self, value, *a, **kw):
            if isinstance(value, SymVal):
                return value
            return orig(self, value, *a, **kw)
        setattr(cls, name, method)
    for cls in (fields.IntegerField, fields.AutoField, fields.CharField, fields.TextField, fields.BooleanField,
                fields.PositiveIntegerField, fields.BigIntegerField):
        for name in ('get_prep_value', 'to_python'):
            if name in cls.__dict__:
                keep(cls, name)

    from django.db.models import expressions
    convert = expressions.BaseExpression.convert_value.func

    def convert_value(self):
        f = convert(self)
        return lambda value, *a: value if isinstance(value, SymVal) else f(value, *a)
    expressions.BaseExpression.convert_value = property(convert_value)

    # int() of the library's own modules
    class IntType(type):
        def __call__(cls, *a, **kw):
            if a and isinstance(a[0], SymVal) and a[0].kind == 'int':
                return a[0]
            return int(*a, **kw)

        def __instancecheck__(cls, o):
            return isinstance(o, (int, SymVal))

    Int = IntType('int', (), {})
    import sys
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.split('.')[0] == 'denorm':
            mod.__dict__.setdefault('int', Int)
