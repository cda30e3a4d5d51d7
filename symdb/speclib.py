"""What scenarios declare about their models: the specification side of every check.

A specification never looks at the library; it says, over a View (symbolic or concrete),
what a denormalized column should contain and which rows it is related to.
"""
from .terms import BEq, And, Or, Not, Ite, SIte, SVal, Sum, Eq, const, b2i, same
from .harness import eqv, View


def always(view, row):
    return True


class D(object):
    """callback-computed column.  fn(view, row) -> value, defined(view, row) -> bool.
    deps: {table: touch(view, row, crow)}; skips: {table: columns whose changes are declared irrelevant};
    inherited: tables of multi-table parents whose columns fn reads"""

    def __init__(self, model, column, fn, defined=always, deps=None, skips=None, self_tracked=True, self_skip=(), inherited=()):
        self.inherited = tuple(inherited)
        self.model = model
        self.column = column
        self.fn = fn
        self.defined = defined
        self.deps = deps or {}
        self.skips = skips or {}
        self.self_tracked = self_tracked
        self.self_skip = tuple(self_skip)

    def fresh(self, view, row):
        return same(row[self.column], self.fn(view, row))

    def describe(self, view, row):
        v, w = row[self.column], self.fn(view, row)
        return '%s.%s of row %s is %s, should be %s' % (
            self.model.__name__, self.column, row[view.pk(self.model)].v, 'NULL' if v.null else v.v,
            'NULL' if w.null else w.v)


class Links(D):
    """computed many-to-many field: member(view, row, target) says which rows are linked"""

    def __init__(self, model, table, mycol, othercol, target, member, **kw):
        D.__init__(self, model, None, None, **kw)
        self.table, self.mycol, self.othercol, self.target, self.member = table, mycol, othercol, target, member

    def fresh(self, view, row):
        out = []
        pk = row[view.pk(self.model)]
        for t in view.rows(self.target):
            links = [And(l.exists, eqv(l[self.mycol], pk), eqv(l[self.othercol], t[view.pk(self.target)]))
                     for l in view.rows(self.table)]
            out.append(Or(Not(t.exists), BEq(Or(*links), self.member(view, row, t))))
        return And(*out)

    def describe(self, view, row):
        return 'the links of %s row %s in %s are wrong' % (self.model.__name__, row[view.pk(self.model)].v, self.table)


class Agg(object):
    """incrementally maintained column"""

    def __init__(self, model, column, fn, source, summed=False):
        self.summed = summed
        self.model = model
        self.column = column
        self.fn = fn
        self.source = source


class Key(object):
    """cache key column: has to change when a dependency changes"""

    def __init__(self, model, column, deps, skips=None):
        self.model = model
        self.column = column
        self.deps = deps
        self.skips = skips or {}


# touch predicates -----------------------------------------------------------------------

def fwd(fkcol, other_pk='id'):
    return lambda view, row, crow: eqv(row[fkcol], crow[other_pk])


def back(fkcol, my_pk='id'):
    return lambda view, row, crow: eqv(crow[fkcol], row[my_pk])


def via(through, mycol, othercol, my_pk='id', other_pk='id'):
    """rows of the other model linked through the intermediate table"""
    def touch(view, row, crow):
        return Or(*[And(t.exists, eqv(t[mycol], row[my_pk]), eqv(t[othercol], crow[other_pk]))
                    for t in view.rows(through)])
    return touch


# value helpers ----------------------------------------------------------------------------

def total(view, table, cond, col, weight=1):
    """sum of a column over the rows satisfying cond"""
    out = []
    for r in view.rows(table):
        c = And(r.exists, cond(r))
        if c is False:
            continue
        v = r[col]
        out.append(Ite(And(c, Not(v.null)), v.v * weight if weight != 1 else v.v, 0))
    return SVal(False, Sum(out))


def count(view, table, cond):
    return SVal(False, Sum([b2i(And(r.exists, cond(r))) for r in view.rows(table)]))


def lookup(view, model, fk, col, default, scale=1, add=0, key=None):
    """scale * col + add of the row a foreign key points at, or default when NULL"""
    found, r = view.find(model, fk, key)
    v = r[col]
    val = SVal(v.null, v.v * scale + add if (scale != 1 or add) else v.v, v.kind)
    return SIte(found, val, const(default))


def valid_fk(model, fkcol, key=None):
    """the foreign key is NULL or points at an existing row"""
    def defined(view, row):
        found, _ = view.find(model, row[fkcol], key)
        return Or(row[fkcol].null, found)
    return defined


# predicates over states ---------------------------------------------------------------------

def consistent(view, d, row):
    return d.fresh(view, row)


def inv_row(view, d, row):
    """existing rows are up to date or marked (or their inputs are incomplete)"""
    pk = row[view.pk(d.model)]
    return Or(Not(row.exists), view.marked(d.model, pk), Not(d.defined(view, row)), consistent(view, d, row))


def invariant(view, denorms):
    return And(*[inv_row(view, d, r) for d in denorms for r in view.rows(d.model)])


def changed(before, after, i, cols):
    """slot i of a table differs between two views in existence or in one of cols"""
    a = before[i] if i < len(before) else None
    b = after[i]
    if a is None:
        return b.exists
    diffs = [Not(same(a[c], b[c])) for c in cols]
    return Or(And(a.exists, Not(b.exists)), And(b.exists, Not(a.exists)), And(a.exists, b.exists, Or(*diffs)))


def related_change(va, vb, model, deps, skips, i, own=None, own_skip=(), loose=False):
    """did anything the row in slot i of model depends on change between view va and view vb?"""
    sa, sb = va.slots(model), vb.slots(model)
    row_b = sb[i]
    row_a = sa[i] if i < len(sa) else None
    out = []
    for t, touch in deps.items():
        ta, tb = va.slots(t), vb.slots(t)
        allcols = list(va.schema.tables[va.schema.table(t)].columns)
        cols = [c for c in allcols if c not in skips.get(t, ())]
        for j in range(len(tb)):
            ch = changed(ta, tb, j, cols)
            if ch is False:
                continue
            hits = [And(tb[j].exists, touch(vb, row_b, tb[j]))]
            if j < len(ta):
                hits.append(And(ta[j].exists, touch(va, row_b, ta[j])))
                if row_a is not None:
                    hits.append(And(ta[j].exists, touch(va, row_a, ta[j])))
            if loose and hasattr(touch, 'loose'):
                hits.append(touch.loose(va.schema, row_b, ta[j] if j < len(ta) else tb[j], tb[j]))
            out.append(And(ch, Or(*hits)))
    if own is not None:
        cols = [c for c in va.schema.tables[va.schema.table(model)].columns if c not in own_skip]
        out.append(changed(sa, sb, i, cols))
    return Or(*out)


def linked(view, through, mycol, mypk, othercol, model, col):
    """sum of col over the rows of model linked to mypk; a row linked twice counts twice"""
    out = []
    for t in view.rows(through):
        here = And(t.exists, eqv(t[mycol], mypk))
        if here is False:
            continue
        for o in view.rows(model):
            c = And(here, o.exists, eqv(t[othercol], o[view.pk(model)]), Not(o[col].null))
            if c is not False:
                out.append(Ite(c, o[col].v, 0))
    return SVal(False, Sum(out))


def generic(model, ct='content_type_id', oid='object_id', pk='id'):
    def touch(view, row, crow):
        return And(Eq(crow[ct].v, view.schema.ct[model]), eqv(crow[oid], row[pk]))

    def loose(schema, row, old, new):
        """moving a row between content types may mark the owners of either id; MySQL ignores the type"""
        typed = Or(Eq(old[ct].v, schema.ct[model]), Eq(new[ct].v, schema.ct[model]))
        return And(Or(schema.dialect == 'mysql', typed), Or(eqv(old[oid], row[pk]), eqv(new[oid], row[pk])))
    touch.loose = loose
    return touch


def gtotal(view, tag, model, row, col, weight=1):
    touch = generic(model)
    return total(view, tag, lambda t: touch(view, row, t), col, weight)
