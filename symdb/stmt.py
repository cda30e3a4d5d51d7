"""Statement obligations: from any state satisfying the invariant, one arbitrary INSERT, UPDATE or
DELETE on a table, with the triggers the library really installs, must re-establish the property.

One step from an arbitrary state covers every history of writes within the row bounds.
"""
from .terms import z3, And, Or, Not, SVal, Implies, Eq, same, SIte, _num, fold_facts
from .store import Row, Unsupported
from .harness import State, View, eval_data, eval_val, eval_bool, eval_int, fold_classes, eqv
from . import engine, explore, install, speclib
from .explore import STATS, check, boolref


class Ctx(object):
    """one booted scenario on one symbolic engine"""

    def __init__(self, schema, scn):
        self.schema = schema
        self.scn = scn
        self.template = None

    def install(self):
        db = self.schema.new_db()
        engine.DB = db
        install.install()
        self.template = db
        return db

    def fresh_db(self):
        db = self.schema.new_db()
        db.triggers = list(self.template.triggers)
        db.functions = dict(self.template.functions)
        db.parse_cache = self.template.parse_cache
        engine.DB = db
        return db


def dependents(ctx, specs, sizes):
    """(model, pk) of every row slot that can be marked"""
    out = []
    seen = set()
    for d in specs:
        t = ctx.schema.table(d.model)
        if t in seen:
            continue
        seen.add(t)
        tab = ctx.schema.tables[t]
        for i in range(sizes.get(t, 0)):
            out.append((d.model, None, t, i))
    return out


class Setup(object):
    pass


def build(ctx, sizes, denorms, aggs=(), keys=(), dangling=True, extra=None, marks=True):
    """symbolic pre-state satisfying the invariant"""
    db = ctx.fresh_db()
    st = State(ctx.schema, db)
    st.populate(sizes, extra)
    s = Setup()
    s.db, s.st, s.sizes = db, st, sizes
    s.skip_fk = set()
    if dangling and db.deferred_fk:
        s.skip_fk = set(dangling if not isinstance(dangling, bool) else
                        ['%s.%s' % (t, c) for t in sizes for c in ctx.schema.tables[t].fks
                         if c != ctx.schema.tables[t].pk])
    if marks:
        pairs = []
        for m, _, t, i in dependents(ctx, denorms, sizes):
            tab = ctx.schema.tables[t]
            pairs.append((m, db.data[t][i].cols[tab.pk]))
        st.mark_slots(pairs)
    s.pre = View(ctx.schema, db.snapshot())
    st.cons.append(st.integrity(db.data, list(sizes), s.skip_fk))
    st.cons.append(speclib.invariant(s.pre, denorms))
    for a in aggs:
        for r in s.pre.rows(a.model):
            st.cons.append(Implies(r.exists, same(r[a.column], a.fn(s.pre, r))))
    return s


def apply_event(ctx, s, table, event, frozen=(), n_insert=1, extra=None, tag='op', only=None):
    """run the symbolic statement; returns a description for replay"""
    db, st = s.db, s.st
    tab = ctx.schema.tables[table]
    db.begin_statement()
    db.in_use[-1].add(table)
    extra = extra or {}
    op = {'table': table, 'event': event}
    if event == 'insert':
        rows = []
        op['rows'] = []
        prev = []
        for k in range(n_insert):
            name = '%s.new%d' % (tag, k)
            g = True if k == 0 else st.bvar(name + '.used')
            pkcol = tab.columns[tab.pk]
            if tab.pk in tab.fks:
                pkv = st.var(name + '.pk')
                st.cons.append(And(pkv >= 1, pkv <= s.sizes.get(table, 0) + 1 + n_insert))
            else:
                pkv = st.var(name + '.pk')
                if pkcol.kind == 'text':
                    from .terms import text_code
                    st.cons.append(Or(*[pkv == text_code('key%d' % i) for i in range(1, s.sizes.get(table, 0) + 1 + n_insert)]))
                else:
                    st.cons.append(And(pkv >= 1, pkv <= s.sizes.get(table, 0) + n_insert))
            for r in db.data[table]:
                st.cons.append(Implies(r.guard, Not(Eq(r.cols[tab.pk].v, pkv))))
            for p in prev:
                st.cons.append(pkv != p)
            prev.append(pkv)
            cols = st.symbolic_row(table, name, SVal(False, pkv, pkcol.kind), s.sizes, extra)
            for c in frozen:
                # maintained columns start from their declared default
                cols[c] = SVal(False, 0, cols[c].kind)
            rows.append((g, cols))
            op['rows'].append((g, cols))
        db.apply_insert(table, rows)
    elif event == 'update':
        changes = []
        op['rows'] = []
        # columns that foreign keys refer to identify a row like its primary key: they stay as they are
        fixed = set(tc for other in ctx.schema.tables.values() for tt, tc in other.fks.values() if tt == table)
        fixed.add(tab.pk)
        for i, r in enumerate(db.data[table]):
            name = '%s.upd%d' % (tag, i)
            sel = st.bvar(name + '.sel')
            if only is not None and i not in only:
                continue
            new = st.symbolic_row(table, name, r.cols[tab.pk], s.sizes, extra)
            vals = dict((c, v) for c, v in new.items() if c not in fixed and c not in frozen)
            changes.append((i, sel, vals))
            op['rows'].append((And(sel, r.guard), r.cols[tab.pk], vals))
        # databases check uniqueness row by row: no new value may equal any other row's old one
        for u in tab.uniques:
            for i, sel, vals in changes:
                for j, r in enumerate(db.data[table]):
                    if j != i and all(c in vals for c in u):
                        st.cons.append(Not(And(sel, db.data[table][i].guard, r.guard, *[eqv(vals[c], r.cols[c]) for c in u])))
        db.apply_update(table, changes)
    else:
        conds = []
        op['rows'] = []
        for i, r in enumerate(db.data[table]):
            sel = st.bvar('%s.del%d.sel' % (tag, i))
            conds.append((i, sel))
            op['rows'].append((And(sel, r.guard), r.cols[tab.pk]))
        db.apply_delete(table, conds)
    s.post = View(ctx.schema, db.snapshot())
    s.errs = [(k, g, m) for k, g, m in db.errors if k != 'depth']
    s.depth = Or(*[g for k, g, m in db.errors if k == 'depth'])
    st.uniqueness(table, db.data)
    st.cons.append(st.integrity(db.data, list(s.sizes), s.skip_fk))
    return op


def op_json(model, op):
    out = {'table': op['table'], 'event': op['event'], 'rows': []}
    for r in op['rows']:
        if not eval_bool(model, r[0]):
            continue
        if op['event'] == 'insert':
            out['rows'].append(dict((c, eval_val(model, v)) for c, v in r[1].items()))
        elif op['event'] == 'update':
            out['rows'].append([eval_val(model, r[1]), dict((c, eval_val(model, v)) for c, v in r[2].items())])
        else:
            out['rows'].append(eval_val(model, r[1]))
    return out


def case_json(ctx, s, model, op):
    tables = [t for t in s.sizes] + [ctx.schema.dirty]
    c = {'init': eval_data(model, ctx.schema, s.pre.data, tables),
         'post': eval_data(model, ctx.schema, s.post.data, tables),
         'op': op_json(model, op)}
    if ctx.schema.folds:
        c['folds'] = dict((str(k), v) for k, v in fold_classes(model).items())
    return c


def solver_for(s, timeout=120000):
    sol = z3.Solver()
    sol.set('timeout', timeout)
    for c in s.st.cons:
        sol.add(boolref(c))
    for a in s.db.assumptions:
        sol.add(boolref(a))
    if s.st.schema.folds:
        for f in fold_facts():
            sol.add(f)
    return sol
