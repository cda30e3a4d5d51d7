"""Which relation a dependency is about: the library's resolution code runs on models whose relations the
solver chooses (kind, owner, target, name), with arguments it chooses too."""
import itertools
import re

import z3

from .terms import And, Or, Not
from .store import Unsupported
from . import explore
from .explore import STATS, Explorer

KINDS = ('fk', 'o2o', 'm2m', 'generic')
LABEL = 'resolving'
DIRECTIONS = ('forward', 'backward', 'forward_m2m', 'backward_m2m')
LISTED = ['a', 'a_id', 'a_id_id', 'id', 'forward']
LITERALS = {}
TERMS = []
TOKEN = re.compile('\x02(\\d+)\x03')


def literal(text):
    k = 0
    while text.endswith('_id'):
        text, k = text[:-3], k + 1
    return z3.IntVal(LITERALS.setdefault(text, -1 - len(LITERALS))), z3.IntVal(k)


class Word(object):
    """a text of which the solver chooses what comes first, and how often '_id' follows: all the texts there are"""
    __class__ = property(lambda self: str)

    def __init__(self, b, k):
        self.b, self.k = b, k
        self.token = None

    def same(self, o):
        if type(o) is not Word:
            m = TOKEN.match(o)
            if m:
                t, rest = TERMS[int(m.group(1))], o[m.end():]
                n = len(rest) // 3
                if rest != '_id' * n:
                    raise Unsupported('a name followed by %s' % rest)
                o = Word(t.b, t.k + n)
            elif TOKEN.search(o):
                raise Unsupported('%r as a name' % o)
            else:
                o = Word(*literal(o))
        return And(self.b == o.b, self.k == o.k)

    def __eq__(self, o):
        return isinstance(o, str) and explore.CUR.decide(self.same(o))

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return not self == ''

    def __hash__(self):
        raise Unsupported('hash of a name')

    def __str__(self):
        if self.token is None:
            self.token = '\x02%d\x03' % len(TERMS)
            TERMS.append(self)
        return self.token
    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __add__(self, o):
        if o == '_id':
            return Word(self.b, self.k + 1)
        return str(self) + o

    def __radd__(self, o):
        return o + str(self)

    def endswith(self, p):
        if p == '_id':
            return explore.CUR.decide(self.k >= 1)
        raise Unsupported('name.endswith(%r)' % (p,))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop == -3 and i.step is None and self.endswith('_id'):
            return Word(self.b, self.k - 1)
        raise Unsupported('name[%s]' % (i,))

    def __getattr__(self, name):
        if hasattr(str, name):
            raise Unsupported('str.%s of a name' % name)
        raise AttributeError(name)

    def text(self, m):
        b = m.eval(self.b, model_completion=True).as_long()
        k = m.eval(self.k, model_completion=True).as_long()
        for t, c in LITERALS.items():
            if c == b:
                return t + '_id' * k
        s = ''.join('abcdefghij'[int(d)] for d in str(abs(b)))
        return ('x' if b >= 0 else 'y') + s + '_id' * k


def same(a, b):
    if type(a) is Word:
        return a.same(b)
    return b.same(a) if type(b) is Word else a == b


def text(m, a):
    return a.text(m) if type(a) is Word else a


def word(ob, path, name, most):
    if ob.listed:
        return LISTED[path.choose(len(LISTED))]
    w = Word(z3.Int(name), z3.Int(name + '_ids'))
    path.assume(And(w.k >= 0, w.k <= most, Not(w.same(''))))
    return w


class Stub(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Meta(object):
    """what the library may look at in a model's _meta"""

    def __init__(self, apps, app_label, name):
        self.apps, self.app_label, self.object_name, self.model_name = apps, app_label, name, name.lower()
        self.label, self.label_lower = '%s.%s' % (app_label, name), '%s.%s' % (app_label, name.lower())
        self.db_table = '%s_%s' % (app_label, name.lower())
        self.fields, self.many_to_many, self.private_fields = [], [], []
        self.abstract = self.proxy = self.swapped = False

    @property
    def local_fields(self):
        return self.fields
    concrete_fields = local_concrete_fields = local_fields

    @property
    def local_many_to_many(self):
        return self.many_to_many

    def get_fields(self, *a, **kw):
        return self.fields + self.many_to_many + self.private_fields

    def get_field(self, name):
        from django.core.exceptions import FieldDoesNotExist
        for f in self.get_fields():
            if f.name == name or f.attname == name:
                return f
        raise FieldDoesNotExist(name)


class Remote(object):
    def __init__(self, slot):
        self.slot = slot

    @property
    def model(self):
        return self.slot.target_now()


class Slot(object):
    """one relation"""

    def __init__(self, ob, path, i, world):
        self.path, self.i, self.world = path, i, world
        opts = list(itertools.product(KINDS, ('this',) if world.self_dep else ('this', 'other'),
                                      ('this', 'decoy') if world.self_dep else ('this', 'other', 'decoy')))
        # the order of declaration within one model is no difference worth twice the work
        first = world.slots[-1].pick if world.slots else 0
        self.pick = first + path.choose(len(opts) - first)
        self.kind, self.owner, self.target = opts[self.pick]
        exists = self.target == 'decoy' or not world.self_dep and (
            (self.owner, self.target) == (('other', 'this') if world.late else ('this', 'other')))
        self.by_class = self.target == 'decoy' or exists and (ob.slots > 1 or not path.choose(2))
        self.resolved = False
        self.name = word(ob, path, 'field%d' % i, ob.ids)
        self.attname = self.name + '_id' if self.kind in ('fk', 'o2o') else self.name
        self.names = (self.name,) if self.attname is self.name else (self.name, self.attname)
        # Django keeps these for the primary key and the like
        for t in ('', 'id', 'calc', 'pk', 'check'):
            path.assume(Not(same(self.name, t)))
            path.assume(Not(same(self.attname, t)))

    def text(self):
        if self.owner == self.target and self.kind != 'generic':
            return 'self'
        return '%s.%s' % (LABEL, self.world.models[self.target].__name__)

    def target_now(self):
        """a relation may name its model; the name stands there until Django resolves it"""
        if self.by_class or self.resolved:
            return self.world.models[self.target]
        return self.text()

    def declare(self):
        """what Django does when the field is added to its model"""
        from django.db.models.fields import related

        def resolve(model, other, field):
            self.resolved = True
        if not self.by_class:
            related.lazy_related_operation(resolve, self.world.models[self.owner], self.text(), field=None)

    def field(self):
        from django.db import models
        from django.contrib.contenttypes.fields import GenericRelation
        cls = {'fk': models.ForeignKey, 'o2o': models.OneToOneField, 'm2m': models.ManyToManyField,
               'generic': GenericRelation}[self.kind]
        slot = self

        class Field(cls):
            related_model = property(lambda f: slot.target_now())

            def __init__(self):
                pass

            def __repr__(self):
                return '<field %d>' % slot.i

            def __eq__(self, o):
                return self is o

            def __hash__(self):
                return id(self)
        f = Field()
        f.name, f.attname, f.column = self.name, self.attname, self.attname
        f.model = self.world.models[self.owner]
        f.remote_field = Remote(self)
        f.creation_counter = self.i
        f.auto_created = False
        return f


class World(object):
    pass


def plain_field(name):
    from django.db import models
    f = models.IntegerField(name=name)
    f.attname = f.column = name
    f.model = None
    return f


class ResolveOb(object):
    splits = True

    def __init__(self, ctx, spec, slots=2, ids=2):
        self.ctx, self.spec, self.slots, self.ids = ctx, spec, slots, ids
        self.deadline = None
        self.seed = 0
        self.listed = False
        self.shard, self.shards = 0, 1

    def desc(self):
        return {'ob': 'resolve', 'slots': self.slots, 'ids': self.ids,
                'sizes': {'relations': self.slots, "'_id's per name": self.ids}}

    @classmethod
    def from_desc(cls, ctx, spec, d):
        return cls(ctx, spec, d['slots'], d['ids'])

    def world(self, path):
        """models this/other/decoy; the decoy's name differs from the other model's in case only"""
        from django.apps.registry import Apps
        from django.contrib.contenttypes.fields import GenericForeignKey
        w = World()
        w.self_dep = bool(path.choose(2))
        w.late = not w.self_dep and bool(path.choose(2))
        apps = Apps()
        w.apps = apps
        mods = {}
        spec = [('this', 'Owner', LABEL), ('other', 'Target', LABEL), ('decoy', 'owner' if w.self_dep else 'target', 'elsewhere')]
        for key, name, label in spec:
            cls = type(name, (object,), {'__module__': 'resolve_case'})
            cls._meta = Meta(apps, label, name)
            mods[key] = cls
        w.models = mods
        apps.all_models['elsewhere'][mods['decoy'].__name__.lower()] = mods['decoy']
        if w.self_dep:
            mods['other'] = mods['this']
        w.slots = []
        for i in range(self.slots):
            w.slots.append(Slot(self, path, i, w))
        w.fields = [s.field() for s in w.slots]
        for s, f in zip(w.slots, w.fields):
            m = mods[s.owner]._meta
            {'fk': m.fields, 'o2o': m.fields, 'm2m': m.many_to_many, 'generic': m.private_fields}[s.kind].append(f)
        for k in ('this', 'other'):
            mods[k]._meta.fields.append(plain_field('plain'))
            mods[k]._meta.private_fields.append(GenericForeignKey())
            for g in mods[k]._meta.private_fields:
                if not hasattr(g, 'attname'):
                    g.name = g.attname = 'gfk'
                    g.model = mods[k]
        # field names clash within a model only if Django refuses the model
        for i, a in enumerate(w.slots):
            for b in w.slots[:i]:
                if a.owner == b.owner:
                    for x, y in itertools.product(a.names, b.names):
                        path.assume(Not(same(x, y)))
        return w

    def args(self, path, w):
        """what the declaration says"""
        a = {'kw': {}}
        forms = ['self', 'name', 'label', 'missing'] if w.self_dep else ['name', 'label', 'missing'] if w.late else \
            ['class', 'name', 'label', 'missing']
        if self.slots > 1:
            forms.remove('missing')
            forms.remove('name')
        a['other'] = forms[path.choose(len(forms))]
        a['type'] = a['fk'] = None
        if path.choose(2):
            a['type'] = a['kw']['type'] = (DIRECTIONS + ('sideways',))[path.choose(5)] if self.listed else word(self, path, 'type', 0)
        given = [s.i for s in w.slots if not (w.late and s.owner == 'other')]
        k = path.choose(2 + len(given))
        if k == 1:
            a['fk'] = a['kw']['foreign_key'] = word(self, path, 'fk', self.ids + 1)
        elif k > 1:
            k = given[k - 2]
            a['fk'] = k
            a['kw']['foreign_key'] = w.fields[k]
            # a field object stands for itself, or for its name: no difference if nothing else has that name
            for s in w.slots:
                if s.i != k:
                    for x, y in itertools.product(w.slots[k].names, s.names):
                        path.assume(Not(same(x, y)))
        cls = w.models['other']
        a['model'] = {'class': cls, 'self': 'self', 'name': cls.__name__, 'label': cls._meta.label, 'missing': 'Nowhere'}[a['other']]
        return a

    def expectation(self, w, a):
        """[(slot, direction, condition under which this is a candidate)]"""
        out = []
        if a['other'] == 'missing':
            return out
        for s in w.slots:
            t = s.target
            dirs = []
            if w.self_dep:
                if s.owner == 'this' and t == 'this':
                    dirs = ['forward'] + (['backward'] if a['type'] is not None else [])
            elif s.owner == 'this' and t == 'other':
                dirs = ['forward']
            elif s.owner == 'other' and t == 'this':
                dirs = ['backward']
            for d in dirs:
                full = d + ('_m2m' if s.kind in ('m2m', 'generic') else '')
                cond = []
                if a['type'] is not None:
                    cond.append(same(a['type'], full))
                if isinstance(a['fk'], int):
                    if a['fk'] != s.i:
                        continue
                elif a['fk'] is not None:
                    cond.append(Or(*[same(a['fk'], n) for n in s.names]))
                out.append((s, full, And(*cond)))
        return out

    def decide(self):
        try:
            return self.decide_names()
        except Unsupported:
            if self.listed:
                raise
            # the code takes names apart in other ways: some names instead of all
            self.listed = True
            return self.decide_names()

    def decide_names(self):
        res = {'desc': self.desc(), 'status': 'proved', 'witnesses': [], 'vacuous': False}
        ex = Explorer([], max_paths=400000, deadline=self.deadline)
        seen = {'n': 0, 'ok': 0, 'refused': 0}

        def run(path):
            from denorm.dependencies import CallbackDependOnRelated, CacheKeyDependOnRelated
            TERMS[:] = []
            w = self.world(path)
            a = self.args(path, w)
            cls = [CallbackDependOnRelated, CacheKeyDependOnRelated][path.choose(2) if self.slots == 1 else 0]
            path.info = {'w': w, 'a': a}
            exc = None
            dep = None
            try:
                if not w.self_dep and not w.late:
                    self.register(w, 'other')
                dep = cls(a['model'], **a['kw'])
                self.register(w, 'this', lambda: dep.setup(w.models['this']))
                if w.late:
                    self.register(w, 'other')
                field = getattr(dep, 'field', None)
                if field is None:
                    dep.get_triggers(None)
                    raise RuntimeError('a dependency without a relation has triggers')
            except ValueError as e:
                exc = e
            except Exception as e:
                if 'Word' in str(e):
                    raise Unsupported(str(e))
                path.prove(False, 'a declaration leads to %s: %s' % (type(e).__name__, e))
            cands = self.expectation(w, a)
            seen['n'] += 1
            one = [And(c, *[Not(c2) for _, _, c2 in cands[:i] + cands[i + 1:]]) for i, (_, _, c) in enumerate(cands)]
            if exc is not None:
                seen['refused'] += 1
                path.prove(Not(Or(*one)) if one else True, 'a dependency on exactly one relation is refused (%s)' % str(exc)[:80])
            else:
                seen['ok'] += 1
                i = next((i for i, f in enumerate(w.fields) if f is field), None)
                good = [And(o, self.same_dir(dep.type, d)) for (s, d, c), o in zip(cands, one) if s.i == i]
                path.prove(Or(*good) if good else False, 'the wrong relation is tracked')
                path.prove(dep.other_model is w.models['other'], 'the wrong model is tracked')
            n = seen['ok'] if exc is None else seen['refused']
            if len(res['witnesses']) < 8 and n % (1 if n < 2 else 97) == 0:
                m = path.witness()
                if m is not None:
                    STATS.witnesses += 1
                    res['witnesses'].append(self.case(m, w, a, exc is None))

        ex.explore(run, shard=self.shard, shards=self.shards)
        res['paths'] = ex.paths
        res['frontier'] = ex.frontier
        if not ex.complete:
            res['incomplete'] = True
        if ex.violations:
            v = ex.violations[0]
            res.update(status='violated', what=v.label, case=self.case(v.model, v.info['w'], v.info['a'], None))
            return res
        res['hit'] = min(seen['ok'], seen['refused'])
        if self.shards == 1 and not res['hit']:
            res['vacuous'] = True
        return res

    def register(self, w, key, prepared=lambda: None):
        """what Django does when a model is defined"""
        for s in w.slots:
            if s.owner == key:
                s.declare()
        prepared()
        cls = w.models[key]
        w.apps.all_models[LABEL][cls.__name__.lower()] = cls
        w.apps.do_pending_operations(cls)

    def same_dir(self, got, want):
        return same(got, want)

    def case(self, m, w, a, accepted):
        return {'self': w.self_dep, 'late': w.late, 'other': a['other'], 'type': None if a['type'] is None else text(m, a['type']),
                'fk': a['fk'] if a['fk'] is None or isinstance(a['fk'], int) else text(m, a['fk']), 'accepted': accepted,
                'relations': [{'kind': s.kind, 'owner': s.owner, 'target': s.target, 'by_class': s.by_class, 'name': text(m, s.name)}
                              for s in w.slots]}

    # ---- the same declaration with real models
    def replay(self, real, case):
        return {'violated': self.observe(case)[1]}

    def validate(self, real, case):
        ok, bad = self.observe(case)
        return {'violated': bad, 'mismatch': None if case['accepted'] is None or ok == case['accepted'] else
                'the declaration is %s' % ('accepted' if ok else 'refused')}

    def observe(self, case):
        from django.apps.registry import Apps
        from django.db import models
        from django.contrib.contenttypes.fields import GenericRelation
        from denorm import denormalized, depend_on_related
        apps = Apps()
        self_dep = case['self']
        decoy_name = 'owner' if self_dep else 'target'

        def model(name, label, fields):
            meta = type('Meta', (), {'apps': apps, 'app_label': label})
            return type(name, (models.Model,), dict(fields, __module__='resolve_case', Meta=meta))
        decoy = model(decoy_name, 'elsewhere', {})
        made = {}

        def fields(owner, models_):
            out = {}
            for i, r in enumerate(case['relations']):
                if r['owner'] != owner:
                    continue
                t = r['target']
                if t == 'decoy':
                    to = decoy
                elif r['by_class']:
                    to = models_[t]
                elif t == owner and r['kind'] != 'generic':
                    to = 'self'
                else:
                    to = '%s.%s' % (LABEL, 'Owner' if t == 'this' else 'Target')
                f = {'fk': lambda: models.ForeignKey(to, related_name='+', on_delete=models.CASCADE),
                     'o2o': lambda: models.OneToOneField(to, related_name='+', on_delete=models.CASCADE),
                     'm2m': lambda: models.ManyToManyField(to, related_name='+', **({'symmetrical': False} if to == 'self' else {})),
                     'generic': lambda: GenericRelation(to)}[r['kind']]()
                out[r['name']] = made[i] = f
            return out
        kw = {}
        if case['type'] is not None:
            kw['type'] = case['type']

        def calc(self):
            return 0
        fn = calc
        exc = None
        cls = dep = None
        try:
            other = None
            if not self_dep and not case['late']:
                other = model('Target', LABEL, fields('other', {}))
            mine = fields('this', {'other': other})
            if case['fk'] is not None:
                kw['foreign_key'] = made[case['fk']] if isinstance(case['fk'], int) else case['fk']
            arg = {'self': 'self', 'name': 'Owner' if self_dep else 'Target', 'missing': 'Nowhere',
                   'label': '%s.%s' % (LABEL, 'Owner' if self_dep else 'Target')}.get(case['other'], other)
            fn = depend_on_related(arg, **kw)(fn)
            calc_field = denormalized(models.IntegerField, default=0)(fn)
            cls = model('Owner', LABEL, dict(mine, calc=calc_field))
            dep = cls._meta.get_field('calc').denorm.depend[0]
            if case['late']:
                model('Target', LABEL, fields('other', {'this': cls}))
            if getattr(dep, 'field', None) is None:
                dep.get_triggers(None)
                return True, 'a dependency on a model that does not exist is accepted'
        except ValueError as e:
            exc = e
        except Exception as e:
            return False, 'the declaration %s leads to %s: %s' % (case, type(e).__name__, e)
        want = []
        for i, r in enumerate(case['relations']):
            if case['other'] == 'missing':
                break
            t = r['target']
            dirs = []
            if self_dep:
                if r['owner'] == 'this' and t == 'this':
                    dirs = ['forward'] + (['backward'] if case['type'] is not None else [])
            elif (r['owner'], t) == ('this', 'other'):
                dirs = ['forward']
            elif (r['owner'], t) == ('other', 'this'):
                dirs = ['backward']
            key = r['kind'] in ('fk', 'o2o')
            own = (r['name'], r['name'] + '_id') if key else (r['name'],)
            for d in dirs:
                full = d + ('' if key else '_m2m')
                if case['type'] is not None and case['type'] != full:
                    continue
                given = case['fk']
                if isinstance(given, int):
                    g = case['relations'][given]
                    given = g['name'] + ('_id' if g['kind'] in ('fk', 'o2o') else '')
                if given is not None and given not in own:
                    continue
                want.append((i, full))
        if exc is not None:
            return False, 'the declaration %s is refused: %s' % (case, exc) if len(want) == 1 else None
        got = next((i for i, f in made.items() if f is dep.field), None)
        if len(want) != 1:
            return True, 'the declaration %s is accepted, %d relations match' % (case, len(want))
        if (got, dep.type) != want[0]:
            return True, 'the declaration %s resolves to %s' % (case, dep.field)
        return True, None
