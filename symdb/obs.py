"""Statement obligations as jobs: decided symbolically, judged concretely with the same predicates."""
import time
from .terms import z3, And, Or, Not, SVal, Implies, Eq, same, const, _num
from .store import Row, Unsupported
from .harness import View, eval_data, eval_bool, eval_val, eval_int
from . import install, speclib, stmt
from .explore import STATS, check, boolref


def own_specs(spec, ctx, table):
    return [d for d in spec.denorms if ctx.schema.table(d.model) == table and d.self_tracked]


def inherited_specs(spec, ctx, table):
    return [d for d in spec.denorms if any(ctx.schema.table(t) == table for t in d.inherited)]


def dep_specs(spec, ctx, table):
    return [d for d in spec.denorms if any(ctx.schema.table(t) == table for t in d.deps)]


# ---- the properties a statement has to preserve ------------------------------------------------

def prop_mark(denorms):
    """rows stay up to date or get marked"""
    def prop(pre, post):
        return speclib.invariant(post, denorms)
    return prop


def prop_agg(aggs):
    def prop(pre, post):
        return And(*[Implies(r.exists, same(r[a.column], a.fn(post, r))) for a in aggs for r in post.rows(a.model)])
    return prop


def prop_quiet(denorms, keys):
    """marks and keys appear only on rows related to a real change; existing marks stay"""
    def prop(pre, post):
        out = []
        models = {}
        for d in denorms:
            models.setdefault(d.model, []).append(d)
        for m, ds in models.items():
            for i, r in enumerate(post.slots(m)):
                if r.exists is False:
                    continue
                pk = r[post.pk(m)]
                new = And(post.marked(m, pk), Not(pre.marked(m, pk)))
                why = [speclib.related_change(pre, post, m, d.deps, d.skips, i,
                                              own=d if d.self_tracked else None, own_skip=d.self_skip,
                                              loose=True) for d in ds]
                out.append(Implies(And(r.exists, new), Or(*why)))
                out.append(Implies(pre.marked(m, pk), post.marked(m, pk)))
        for k in keys:
            ra, rb = pre.slots(k.model), post.slots(k.model)
            for i, r in enumerate(ra):
                why = speclib.related_change(pre, post, k.model, k.deps, k.skips, i, loose=True)
                out.append(Implies(And(r.exists, rb[i].exists, Not(same(r[k.column], rb[i][k.column]))), why))
        return And(*out)
    return prop


def key_changes(pre, post, k):
    """[(must change, value before, value after)] per existing row"""
    ra, rb = pre.slots(k.model), post.slots(k.model)
    out = []
    for i, r in enumerate(ra):
        why = And(r.exists, rb[i].exists, speclib.related_change(pre, post, k.model, k.deps, k.skips, i))
        out.append((why, r[k.column], rb[i][k.column], i))
    return out


MARKS = ('own', 'rel', 'inherited')


class StmtOb(object):
    def __init__(self, ctx, spec, kind, table, event, n_insert=1, sizes=None, dangling=True):
        self.ctx, self.spec = ctx, spec
        self.kind, self.table, self.event, self.n_insert = kind, table, event, n_insert
        self.sizes = sizes or spec.sizes
        self.dangling = dangling

    def desc(self):
        return {'ob': 'stmt', 'kind': self.kind, 'table': self.table, 'event': self.event, 'n_insert': self.n_insert,
                'sizes': self.sizes, 'dangling': self.dangling}

    @classmethod
    def from_desc(cls, ctx, spec, d):
        return cls(ctx, spec, d['kind'], d['table'], d['event'], d['n_insert'], d['sizes'], d['dangling'])

    def targets(self):
        ctx, spec = self.ctx, self.spec
        if self.kind == 'own':
            return own_specs(spec, ctx, self.table)
        if self.kind == 'rel':
            return dep_specs(spec, ctx, self.table)
        if self.kind == 'inherited':
            return inherited_specs(spec, ctx, self.table)
        if self.kind == 'agg':
            return getattr(spec, 'agg_targets', spec.aggs)
        if self.kind == 'key':
            return [k for k in spec.keys if any(ctx.schema.table(t) == self.table for t in k.deps)]
        return spec.denorms

    def applicable(self):
        return bool(self.targets()) or self.kind == 'quiet'

    def frozen(self):
        """maintained columns no application writes directly"""
        f = [a.column for a in self.spec.aggs if self.ctx.schema.table(a.model) == self.table]
        f += [k.column for k in self.spec.keys if self.ctx.schema.table(k.model) == self.table]
        return f

    def prop(self):
        if self.kind in MARKS:
            return prop_mark(self.targets())
        if self.kind == 'agg':
            return prop_agg(self.targets())
        return prop_quiet(self.spec.denorms, self.spec.keys)

    def build(self):
        aggs = self.spec.aggs
        dang = self.dangling
        if dang is True and getattr(self.spec, 'dangling', None) is not None:
            dang = self.spec.dangling
        s = stmt.build(self.ctx, self.sizes, self.spec.denorms, aggs, self.spec.keys, dangling=dang,
                       extra=self.spec.extra)
        op = stmt.apply_event(self.ctx, s, self.table, self.event, self.frozen(), self.n_insert, self.spec.extra)
        return s, op

    def decide(self):
        """-> dict(status, case, witnesses, ...)"""
        t0 = time.time()
        s, op = self.build()
        res = {'desc': self.desc(), 'status': 'proved', 'witnesses': [], 'vacuous': False}
        sol = stmt.solver_for(s)
        if s.depth is not False and check(sol, boolref(s.depth)):
            raise Unsupported('trigger recursion bound reached')
        errs = Or(*[g for k, g, m in s.errs])
        STATS.obligations += 1
        if errs is not False and check(sol, boolref(errs)):
            m = sol.model()
            msgs = [msg for k, g, msg in s.errs if eval_bool(m, g)]
            res.update(status='violated', what='statement fails: %s' % msgs[0],
                       case=dict(stmt.case_json(self.ctx, s, m, op), expect='error'))
            return res
        if errs is not False:
            sol.add(boolref(Not(errs)))
        if self.kind == 'key':
            return self.decide_key(s, op, sol, res)
        p = self.prop()(s.pre, s.post)
        STATS.obligations += 1
        if p is not True and check(sol, boolref(Not(p))):
            m = sol.model()
            case = dict(stmt.case_json(self.ctx, s, m, op), expect='state')
            if self.kind == 'inherited':
                # columns of a parent's table are not watched for the child
                res['known'] = [{'id': 'parent-columns', 'case': case}]
                return res
            res.update(status='violated', what=self.kind, case=case)
            return res
        # non-vacuity: the statement can have an effect this property is about
        w = self.interesting(s)
        ok = check(sol, boolref(w)) if w is not False else False
        if not ok and self.kind == 'quiet':
            ok = check(sol)             # nothing depends on this table: any statement will do
        if ok:
            m = sol.model()
            STATS.witnesses += 1
            res['witnesses'].append(stmt.case_json(self.ctx, s, m, op))
        else:
            res['vacuous'] = True
        res['wall'] = time.time() - t0
        return res

    def interesting(self, s):
        """a situation in which the triggers had to do something"""
        if self.kind in MARKS:
            out = []
            for d in self.targets():
                for r in s.post.rows(d.model):
                    pk = r[s.post.pk(d.model)]
                    stale = And(r.exists, d.defined(s.post, r), Not(speclib.consistent(s.post, d, r)))
                    out.append(And(stale, Not(s.pre.marked(d.model, pk))))
            return Or(*out)
        if self.kind == 'agg':
            out = []
            for a in self.targets():
                pa, pb = s.pre.slots(a.model), s.post.slots(a.model)
                for x, y in zip(pa, pb):
                    out.append(And(x.exists, y.exists, Not(same(x[a.column], y[a.column]))))
            return Or(*out)
        out = []
        for d in self.spec.denorms:
            for r in s.post.rows(d.model):
                pk = r[s.post.pk(d.model)]
                out.append(And(r.exists, s.post.marked(d.model, pk), Not(s.pre.marked(d.model, pk))))
        for k in self.spec.keys:
            for why, old, new, i in key_changes(s.pre, s.post, k):
                out.append(And(why, Not(same(old, new))))
        return Or(*out) if out else True

    def decide_key(self, s, op, sol, res):
        """a key that has to change must take a value that depends on a fresh random draw"""
        twin = []
        for c, sort in s.db.draws:
            twin.append((c, z3.Int('twin_' + str(c)) if sort == 'int' else z3.Real('twin_' + str(c))))
        sub = lambda t: z3.substitute(t, *twin) if twin and not isinstance(t, (int, bool)) else t
        for a in s.db.assumptions:
            sol.add(boolref(sub(a)))
        for (c, sort), (_, c2) in zip(s.db.draws, twin):
            gap = 1 if sort == 'int' else z3.RealVal('1/1125899906842624')
            sol.add(z3.Or(c - c2 >= gap, c2 - c >= gap))
        for i, (c, sort) in enumerate(s.db.draws):
            for d, sort2 in s.db.draws[:i]:
                gap = 1 if sort == 'int' else z3.RealVal('1/1125899906842624')
                sol.add(z3.Or(c - d >= gap, d - c >= gap))
        any_change = []
        for k in self.targets():
            rows = key_changes(s.pre, s.post, k)
            col = self.ctx.schema.tables[self.ctx.schema.table(k.model)].columns[k.column]
            for why, old, new, i in rows:
                STATS.obligations += 1
                any_change.append(why)
                stuck = And(why, Or(new.null, And(Eq(new.v, old.v), Eq(sub(new.v), old.v)),
                                    Not(And(new.v >= -2 ** 63, new.v <= 2 ** 63 - 1))))
                if stuck is not False and check(sol, boolref(stuck)):
                    m = sol.model()
                    res.update(status='violated', what='key', case=dict(stmt.case_json(self.ctx, s, m, op), expect='state'))
                    return res
                # two rows never share a refreshed key
                for why2, old2, new2, j in rows[:i]:
                    STATS.obligations += 1
                    coll = And(why, why2, Eq(new.v, new2.v), Eq(sub(new.v), sub(new2.v)))
                    if coll is not False and check(sol, boolref(coll)):
                        m = sol.model()
                        res.update(status='violated', what='key shared by two rows',
                                   case=dict(stmt.case_json(self.ctx, s, m, op), expect='state'))
                        return res
        w = Or(*any_change)
        if w is not False and check(sol, boolref(w)):
            m = sol.model()
            STATS.witnesses += 1
            res['witnesses'].append(stmt.case_json(self.ctx, s, m, op))
        else:
            res['vacuous'] = True
        return res

    # ---- concrete side -----------------------------------------------------------------
    def judge(self, pre, post, error, case):
        """-> description of the violation in concrete states, or None"""
        if error is not None:
            return 'statement on %s fails: %s' % (self.table, error)
        if self.kind == 'key':
            seen = {}
            for k in self.targets():
                for why, old, new, i in key_changes(pre, post, k):
                    if why and (new.null or new.v == old.v):
                        return 'cache key %s.%s of row %s unchanged (%s) although a dependency changed' % (
                            k.model.__name__, k.column, i + 1, old.v)
                    if why:
                        if new.v in seen:
                            return 'rows share the refreshed cache key %s' % new.v
                        seen[new.v] = i
            return None
        p = self.prop()(pre, post)
        if p is True:
            return None
        if self.kind in MARKS:
            for d in self.targets():
                for r in post.rows(d.model):
                    if not speclib.inv_row(post, d, r):
                        return '%s.%s of row %s is %s, should be %s, and the row is not marked' % (
                            d.model.__name__, d.column, r[post.pk(d.model)].v, show(r[d.column]), show(d.fn(post, r)))
        if self.kind == 'agg':
            for a in self.targets():
                for r in post.rows(a.model):
                    if not same(r[a.column], a.fn(post, r)):
                        return '%s.%s of row %s is %s, exact value is %s' % (
                            a.model.__name__, a.column, r[post.pk(a.model)].v, show(r[a.column]), show(a.fn(post, r)))
        return 'row marked dirty (or key changed) although nothing it depends on changed'


def show(v):
    return 'NULL' if v.null is True else v.v


# ---- replay on a real database ---------------------------------------------------------------------

def _fixed_columns(ob):
    """columns whose values are random"""
    return set('%s.%s' % (ob.ctx.schema.table(k.model), k.column) for k in ob.spec.keys)


class _Undo(Exception):
    pass


def in_scratch(real, fn):
    """run fn in a transaction that is rolled back, so that deferred constraints never bite"""
    from django.db import transaction
    if real.dialect == 'mysql':
        return fn()
    out = []
    try:
        with transaction.atomic():
            out.append(fn())
            raise _Undo()
    except _Undo:
        pass
    return out[0]


def _real_run(ob, real, case):
    pre, post, error = _real_run1(ob, real, case, True)
    if error is not None:
        _, _, plain = _real_run1(ob, real, case, False)
        if plain is not None:
            raise RuntimeError('the statement is refused even without triggers: %s' % plain)
    return pre, post, error


def _real_run1(ob, real, case, triggers):
    from django.db import transaction
    from . import realdb
    real.drop_all_triggers()
    real.clear()

    def go():
        real.load(case)
        pre = real.dump()
        if triggers:
            install.install()
        try:
            with transaction.atomic():
                real.run_op(case['op'])
        except Exception as e:
            return pre, None, '%s: %s' % (type(e).__name__, str(e).strip().split('\n')[0])
        return pre, real.dump(), None
    pre, post, error = in_scratch(real, go)
    if post is not None:
        pre, post = realdb.align(real.schema, pre, post)
    return pre, post, error


def stmt_replay(ob, real, case):
    pre, post, error = _real_run(ob, real, case)
    bad = ob.judge(pre, post, error, case)
    if not bad and ob.kind == 'key':
        bad = repeats(ob, real, case)
    return {'violated': bad}


def repeats(ob, real, case, seconds=8):
    """random keys cannot be dictated to the database, but values from a small range soon repeat"""
    seen, n, end = set(), 0, time.time() + seconds
    while time.time() < end:
        pre, post, error = _real_run1(ob, real, case, True)
        if error is not None:
            return None
        for k in ob.targets():
            for why, old, new, i in key_changes(pre, post, k):
                if why:
                    n += 1
                    if new.v in seen:
                        return 'refreshed cache keys repeat within %d draws' % n
                    seen.add(new.v)
    if len(seen) > 40 and max(seen) - min(seen) < 2 ** 40:
        return 'refreshed cache keys only come from %d to %d' % (min(seen), max(seen))
    return None


def stmt_validate(ob, real, case):
    from . import realdb
    pre, post, error = _real_run(ob, real, case)
    if error is not None:
        return {'mismatch': 'the database refused the statement: %s' % error, 'violated': ob.judge(pre, post, error, case)}
    post2 = View(real.schema, dict((t, [r for r in rows if r.guard is True]) for t, rows in post.data.items()))
    got = realdb.data_json(real.schema, post2, list(case['post']))
    return {'mismatch': realdb.same_state(real.schema, case['post'], got, _fixed_columns(ob)),
            'violated': ob.judge(pre, post, error, case)}


StmtOb.replay = lambda self, real, case: stmt_replay(self, real, case)
StmtOb.validate = lambda self, real, case: stmt_validate(self, real, case)
