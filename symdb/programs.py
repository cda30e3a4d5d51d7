"""The programs flow obligations run and the goals they have to reach.

A goal yields (label, predicate, known-finding id or None)."""
import z3

from .terms import And, Or, Not, SVal, Implies, Eq, same
from . import speclib, explore, chance, engine
from .harness import View


def flush(h):
    from denorm import flush as f
    f()


# ---- rebuilding ---------------------------------------------------------------------------------------
# spec.selections: [(model_name, field_name, [selected denorms and aggregates])]

def rebuild(h):
    from denorm import rebuildall
    sel = h.ob.spec.selections
    name, field, chosen = sel[h.pick(len(sel))]
    h.note('chosen', chosen)
    rebuildall(model_name=name, field_name=field)


# ---- cached fields ------------------------------------------------------------------------------------
# spec.cached: [(model, attribute, function(view, row))], spec.cache_ops: [fn(h)]

def key_columns(h):
    return [(k.model, k.column) for k in h.ob.spec.keys]


def key_values(h, view):
    return [(m, i, r[c]) for m, c in key_columns(h) for i, r in enumerate(view.slots(m)) if r.exists is not False]


def keys_fresh(h, after, seen, since):
    """a key the database drew at random differs from every key there ever was (C12 checks the randomness)"""
    drawn = engine.DB.draws[since:]
    one = [(c, z3.IntVal(0) if kind == 'int' else z3.RealVal(0)) for c, kind in drawn]
    two = [(c, z3.IntVal(1) if kind == 'int' else z3.RealVal('1/2')) for c, kind in drawn]
    new = key_values(h, after)
    for n, (m, i, v) in enumerate(new):
        if not drawn or isinstance(v.v, int):
            continue
        changed = z3.simplify(z3.substitute(v.v, *one) != z3.substitute(v.v, *two))
        if z3.is_false(changed):
            continue
        for w in seen + [x[2] for x in new[:n] + new[n + 1:]] + [SVal(False, 0)]:
            h.path.assume(Implies(And(changed, Not(w.null)), Not(Eq(v.v, w.v))))
    seen.extend(v for m, i, v in new)


def cached_reads2(h):
    cached_reads(h, 2)


def past_reads(h):
    cached_reads(h, ops=h.ob.spec.past_ops)


def cached_reads(h, steps=1, ops=None):
    """read, write, perhaps save instances loaded before the write, read again"""
    from . import cachestub
    store = cachestub.STORE
    store.clear()
    reads, seen, kept_objects = [], [], []
    spec = h.ob.spec
    ops = ops or spec.cache_ops
    if not h.real:
        explore.TOKENS = {}
        start = h.view()
        seen = [v for m, i, v in key_values(h, start)]
        h.chance.avoid = lambda: [v.v for v in seen] + [0]

    def settle(since):
        if not h.real:
            keys_fresh(h, h.view(), seen, since)

    def read_all(keep=False, deferred=False):
        from .flow import note_val
        view = h.view()
        for m in spec.cached_models:
            q = m._base_manager.order_by('pk')
            if deferred:
                q = q.defer(*[attr for model, attr, fn in spec.cached if model is m])
            for o in q:
                for model, attr, fn in spec.cached:
                    if model is m:
                        reads.append((model, attr, fn, note_val(o.pk), note_val(getattr(o, attr)), view))
                if keep:
                    kept_objects.append(o)
    try:
        read_all(True)
        for n in range(steps):
            since = 0 if h.real else len(engine.DB.draws)
            k = h.pick(len(ops) + 1)
            if k < len(ops):
                ops[k](h, '.%d' % n)
                settle(since)
                since = 0 if h.real else len(engine.DB.draws)
            # somebody saves the instance loaded at the start
            k = h.pick(len(kept_objects) + 1)
            if k < len(kept_objects):
                kept_objects[k].save()
                settle(since)
            read_all(deferred=h.pick(2))
    finally:
        if not h.real:
            explore.TOKENS = None
        h.note('reads', reads)


# ---- saving instances ---------------------------------------------------------------------------------
# spec.savers: [Saver(model, {attribute: column assigned}, [maintained attributes assigned by hand])]

class Saver(object):
    """related: tables the save also writes (parents of the model, link tables);
    up: (parent table, {attribute: column}) of an extended model"""

    def __init__(self, model, given, junk=(), refs=(), related=(), up=None):
        self.model, self.given, self.junk, self.refs, self.related, self.up = model, given, junk, refs, related, up


def assign(h, s, o):
    t = h.ctx.schema.table(s.model)
    for attr, col in s.given.items():
        v = h.ref('in.' + attr, t, col) if attr in s.refs else h.value('in.' + attr, t, col)
        setattr(o, attr, v)
    if s.up is not None:
        for attr, col in s.up[1].items():
            fk = col in h.ctx.schema.tables[s.up[0]].fks
            setattr(o, attr, h.ref('in.' + attr, s.up[0], col) if fk else h.value('in.' + attr, s.up[0], col))
    for attr in s.junk if not getattr(h, 'past', False) or o.pk is None else ():
        setattr(o, attr, h.value('in.' + attr, t, attr))


def noted(h, s, o):
    """what the saved instance says about itself"""
    from .flow import note_val
    t = h.ctx.schema.table(s.model)
    h.note('saver', s)
    h.note('pk', note_val(o.pk))
    attrs = {}
    for f in s.model._meta.concrete_model._meta.local_concrete_fields:
        if f.column in h.ob.maintained(t):
            attrs[f.column] = note_val(o.__dict__.get(f.attname))
    h.note('attrs', attrs)
    h.note('given', dict((col, h.ins('in.' + attr, t, col)) for attr, col in s.given.items()))


class Past(object):
    """models as migrations see them, rebuilt from what makemigrations writes about their fields"""
    apps = None

    @staticmethod
    def recorded(field):
        from django.db.migrations.writer import MigrationWriter
        text, imports = MigrationWriter.serialize(field)
        names = {}
        for line in imports:
            exec(line, names)
        return eval(text, names)

    @classmethod
    def model(cls, model):
        from django.apps import apps
        from django.db.migrations.state import ProjectState
        if cls.apps is None:
            state = ProjectState.from_apps(apps)
            for m in state.models.values():
                m.fields = [(name, cls.recorded(field)) for name, field in m.fields]
            cls.apps = state.apps
        return cls.apps.get_model(model._meta.app_label, model.__name__)


def class_of(h, s):
    return Past.model(s.model) if getattr(h, 'past', False) else s.model


def pick_saver(h):
    h.note('since', len(h.chance.draws))
    ss = h.ob.spec.savers
    return ss[h.pick(len(ss))]


def save_loaded(h):
    """load, change, assign maintained fields by hand, save"""
    s = pick_saver(h)
    k = 1 + h.pick(h.ob.sizes[h.ctx.schema.table(s.model)])
    for o in class_of(h, s)._base_manager.filter(pk=k):
        assign(h, s, o)
        o.save()
        noted(h, s, o)


def save_new(h):
    s = pick_saver(h)
    o = class_of(h, s)()
    assign(h, s, o)
    o.save()
    noted(h, s, o)


def save_pk(h):
    """an instance that was not loaded but given its primary key"""
    s = pick_saver(h)
    k = 1 + h.pick(h.ob.sizes[h.ctx.schema.table(s.model)] + 1)
    o = class_of(h, s)(pk=k)
    assign(h, s, o)
    o.save()
    noted(h, s, o)


def save_fields(h):
    """a partial save that names maintained fields"""
    s = pick_saver(h)
    k = 1 + h.pick(h.ob.sizes[h.ctx.schema.table(s.model)])
    for o in class_of(h, s)._base_manager.filter(pk=k):
        assign(h, s, o)
        o.save(update_fields=list(s.given) + list(s.up[1] if s.up else ()) + list(() if getattr(h, 'past', False) else s.junk))
        noted(h, s, o)


def bulk_new(h):
    s = pick_saver(h)
    if s.model._meta.parents:
        return
    o = class_of(h, s)()
    assign(h, s, o)
    class_of(h, s)._base_manager.bulk_create([o])


def save_copy(h):
    """load an instance, drop its primary key and save it as a new row"""
    s = pick_saver(h)
    if s.up is not None or s.model._meta.parents:
        return
    k = 1 + h.pick(h.ob.sizes[h.ctx.schema.table(s.model)])
    for o in class_of(h, s)._base_manager.filter(pk=k):
        o.pk = None
        assign(h, s, o)
        o.save()
        noted(h, s, o)


def past_loaded(h):
    h.past = True
    save_loaded(h)


def past_new(h):
    h.past = True
    save_new(h)


def past_fields(h):
    h.past = True
    save_fields(h)


def past_bulk(h):
    h.past = True
    bulk_new(h)


SAVES = ('save_copy', 'save_loaded', 'save_new', 'save_pk', 'save_fields', 'bulk_new')

PAST = ('past_loaded', 'past_new', 'past_fields', 'past_bulk')

PROGRAMS = {'past_reads': past_reads, 'past_loaded': past_loaded, 'past_new': past_new, 'past_fields': past_fields, 'past_bulk': past_bulk, 'cached_reads': cached_reads, 'cached_reads2': cached_reads2, 'rebuild': rebuild, 'save_copy': save_copy, 'save_fields': save_fields, 'bulk_new': bulk_new, 'flush': flush, 'save_loaded': save_loaded, 'save_new': save_new, 'save_pk': save_pk}


def get(spec, name):
    from . import entry
    own = getattr(spec, 'programs', {})
    return own.get(name) or PROGRAMS.get(name) or entry.PROGRAMS[name]


def goal(spec, name):
    from . import entry
    own = getattr(spec, 'goals', {})
    return own.get(name) or GOALS.get(name) or entry.GOALS[name]


# ---- goals --------------------------------------------------------------------------------------------

def all_fresh(post, denorms):
    return And(*[Or(Not(r.exists), Not(d.defined(post, r)), d.fresh(post, r))
                 for d in denorms for r in post.rows(d.model)])


def no_marks(post):
    return And(*[Not(r.exists) for r in post.rows(post.schema.dirty)])


def aggs_exact(post, aggs):
    return And(*[Implies(r.exists, same(r[a.column], a.fn(post, r))) for a in aggs for r in post.rows(a.model)])


def frame(ob, pre, post, tables=None):
    """only maintained columns differ, rows neither appear nor vanish"""
    out = []
    for t in tables or ob.sizes:
        if t in [getattr(d, 'table', None) for d in ob.spec.denorms]:
            continue                # the link table of a computed many-to-many field
        skip = ob.maintained(t)
        a, b = pre.slots(t), post.slots(t)
        for i, r in enumerate(b):
            if i >= len(a):
                out.append(Not(r.exists))
                continue
            out.append(And(Or(And(a[i].exists, r.exists), And(Not(a[i].exists), Not(r.exists)))))
            for c in r.cols:
                if c not in skip:
                    out.append(Implies(r.exists, same(a[i][c], r[c])))
    return And(*out)


def fresh(ob, h, pre, post, out):
    yield 'raises', out.exc is None, None
    yield 'marks are left', no_marks(post), None
    yield 'a row is out of date', all_fresh(post, ob.spec.denorms), None
    yield 'other data changed', frame(ob, pre, post), None
    if ob.spec.aggs:
        yield 'an aggregate is wrong', aggs_exact(post, ob.spec.aggs), None


def survive(ob, h, pre, post, out):
    """a failure loses nothing that was pending, and the next attempt repairs everything"""
    if out.mid is not None:
        yield 'the failure is hidden from the caller', out.first is not None, None
        yield 'a stale row lost its mark', speclib.invariant(out.mid, ob.spec.denorms), None
        yield 'other data changed', frame(ob, pre, out.mid), None
    for x in fresh(ob, h, pre, post, out):
        yield x


def settled(ob, h, pre, post, out):
    """a race: rows are up to date or marked, and the other client's data is as that client left it"""
    yield 'raises', out.exc is None, None
    other = out.other(ob, pre)
    if other is None:
        return
    yield "the other client's data is overwritten", frame(ob, other, post), None
    for d in ob.spec.denorms:
        for i, r in enumerate(post.slots(d.model)):
            kid = 'lost-mark' if out.window(ob, d, i) else None
            yield 'a row is out of date and not marked', speclib.inv_row(post, d, r), kid
    if ob.spec.aggs:
        yield 'an aggregate is wrong', aggs_exact(post, ob.spec.aggs), None


def saved_row(h, post):
    s = h.notes['saver']
    return post.find(s.model, h.notes['pk'])


def stored(ob, h, post):
    """the saved row holds what the caller assigned"""
    found, row = saved_row(h, post)
    out = [found] + [same(row[c], v) for c, v in h.notes['given'].items()]
    s = h.notes['saver']
    if s.up is not None:
        found, row = post.find(s.up[0], h.notes['pk'])
        out.append(found)
        out.extend(same(row[c], h.ins('in.' + a, s.up[0], c)) for a, c in s.up[1].items())
    return And(*out)


def others_kept(ob, h, pre, post):
    """rows other than the saved one keep everything but maintained columns"""
    s, pk = h.notes['saver'], h.notes['pk']
    out = []
    for t in ob.sizes:
        if t in s.related:
            continue
        skip = ob.maintained(t)
        mine = t == ob.ctx.schema.table(s.model)
        a, b = pre.slots(t), post.slots(t)
        for i, r in enumerate(b):
            me = Eq(r[post.pk(t)].v, pk.v) if mine else False
            if i >= len(a):
                out.append(Or(Not(r.exists), me))
                continue
            same_row = And(Or(And(a[i].exists, r.exists), And(Not(a[i].exists), Not(r.exists))),
                           *[Implies(r.exists, same(a[i][c], r[c])) for c in r.cols if c not in skip])
            out.append(Or(me, same_row))
    return And(*out)


def kept(ob, h, pre, post, out):
    """saving keeps aggregates exact"""
    # two clients inserting the same primary key: the database refuses one of them
    # and a partial save of a row somebody deleted is refused by Django
    refused = ob.mode == 'race' and (ob.race[1], type(out.exc).__name__) in (
        ('insert', 'IntegrityError'), ('delete', 'DatabaseError'))
    yield 'raises', out.exc is None or refused, None
    yield 'an aggregate is wrong after the save', aggs_exact(post, ob.spec.aggs), None
    if 'saver' not in h.notes:
        return
    if out.other(ob, pre) is None:
        yield 'the assigned values are not stored', stored(ob, h, post), None
        yield 'other data changed', others_kept(ob, h, pre, post), None
        found, row = saved_row(h, post)
        yield 'the instance disagrees with its row', And(*[same(row[c], v) for c, v in h.notes['attrs'].items()]), None


def computed(ob, h, pre, post, out):
    """saving stores freshly computed values"""
    yield 'raises', out.exc is None, None
    if 'saver' not in h.notes:
        return
    found, row = saved_row(h, post)
    yield 'the assigned values are not stored', stored(ob, h, post), None
    for d in ob.spec.denorms:
        if issubclass(h.notes['saver'].model, d.model):
            yield '%s is not what its function returns' % (d.column or d.table), And(*[
                Or(Not(r.exists), Not(Eq(r[post.pk(d.model)].v, h.notes['pk'].v)), d.fresh(post, r))
                for r in post.rows(d.model)]), None
    yield 'the instance disagrees with its row', And(*[same(row[c], v) for c, v in h.notes['attrs'].items()]), None
    yield 'other data changed', others_kept(ob, h, pre, post), None
    yield 'another row is out of date and not marked', speclib.invariant(post, ob.spec.denorms), None


def keyed(ob, h, pre, post, out):
    """saving gives each cache key a value from fresh randomness"""
    yield 'raises', out.exc is None, None
    if 'saver' not in h.notes:
        return
    found, row = saved_row(h, post)
    yield 'the assigned values are not stored', stored(ob, h, post), None
    for x in keys_drawn(ob, h, post):
        yield x
    yield 'the instance disagrees with its row', And(*[same(row[c], v) for c, v in h.notes['attrs'].items()]), None
    yield 'other data changed', others_kept(ob, h, pre, post), None


keyed.twice = True


def keys_drawn(ob, h, post):
    s = h.notes['saver']
    found, row = saved_row(h, post)
    lo, hi = chance.BIGINT
    for k in ob.spec.keys:
        if k.model is not s.model:
            continue
        v = row[k.column].v
        yield '%s does not fit its column' % k.column, And(Not(row[k.column].null), v >= lo, v <= hi), None
        if not h.real:
            fresh_key = h.chance.fresh(v, h.notes['since'])
        else:
            row2 = saved_row(h.second[3], h.second[1])[1]
            fresh_key = row2[k.column].v != v and any(b - a + 1 >= chance.WIDE for _, a, b in h.chance.draws)
        yield '%s is not drawn afresh' % k.column, fresh_key, None


def migrated(ob, h, pre, post, out):
    """saving through a migration's models keeps what the library maintains right, or marks it"""
    yield 'raises', out.exc is None, None
    yield 'an aggregate is wrong after the save', aggs_exact(post, ob.spec.aggs), None
    yield 'a row is out of date and not marked', speclib.invariant(post, ob.spec.denorms), None
    if 'saver' not in h.notes:
        return
    yield 'the assigned values are not stored', stored(ob, h, post), None
    yield 'other data changed', others_kept(ob, h, pre, post), None
    if ob.program in ('past_loaded', 'past_new'):
        for x in keys_drawn(ob, h, post):
            yield x


migrated.twice = True


def current(ob, h, pre, post, out):
    """every read returned what the function computes from the data as it was then"""
    yield 'raises', out.exc is None, None
    for model, attr, fn, pk, value, view in h.notes['reads']:
        found, row = view.find(model, pk)
        want = fn(view, row)
        yield 'reading %s.%s returns an outdated value' % (model.__name__, attr), And(found, same(want, value)), None


def rebuilt(ob, h, pre, post, out):
    """whatever was stored before: what was selected is correct now"""
    yield 'raises', out.exc is None, None
    yield 'marks are left', no_marks(post), None
    chosen = h.notes['chosen']
    yield 'a row is out of date', all_fresh(post, [d for d in ob.spec.denorms if d in chosen]), None
    yield 'other data changed', frame(ob, pre, post), None
    for a in ob.spec.aggs:
        if a in chosen:
            yield '%s of %s is wrong' % (a.column, a.model.__name__), aggs_exact(post, [a]), None


GOALS = {'migrated': migrated, 'current': current, 'keyed': keyed, 'rebuilt': rebuilt, 'kept': kept, 'computed': computed, 'fresh': fresh, 'survive': survive, 'settled': settled}
