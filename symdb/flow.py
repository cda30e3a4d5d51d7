"""Program obligations: real Python code of the library (flush, save, rebuild, commands ...) runs on
symbolic database states; every branch is explored, faults and other clients' statements may be
injected at any statement, and the outcome is compared with the specification."""
import time

from .terms import z3, And, Or, Not, SVal, Implies, Eq, same, const, _num, fold_facts, text_of, TEXTS
from .store import Row, Unsupported
from .harness import State, View, eval_data, eval_bool, eval_val, eval_int, fold_classes, to_python, eqv
from . import engine, explore, install, speclib, stmt, chance
from .explore import STATS, Explorer, Stop, SymVal, boolref, check

MAX_STATEMENTS = 400
COUNTED = ('read', 'write', 'ddl')


class Endless(BaseException):
    """the program issued more statements than any terminating run may need"""


def durable():
    from django.db import connection
    return dict((t, list(r)) for t, r in connection.connection.durable().items())


class Outcome(object):
    """what a finished (or interrupted) run left behind"""

    def __init__(self):
        self.exc = None             # exception that escaped
        self.value = None
        self.notes = {}
        self.hook = None
        self.op = None

    def other(self, ob, pre):
        """the state with the other client's statement applied, or None if there was none"""
        if self.hook is not None:
            return View(ob.ctx.schema, self.hook.after_view.data) if self.hook.at else None
        if self.op is None:
            return None
        return with_op(ob.ctx.schema, pre, self.op)

    def window(self, ob, d, slot):
        """the other client's statement fell between reading the row and deleting its marks,
        and nothing but this row was being recomputed meanwhile"""
        if self.hook is None:
            return False
        dirty = ob.ctx.schema.dirty
        t = ob.ctx.schema.table(d.model)
        at = self.hook.at
        seg = []
        for n, sql, rows in self.hook.log:
            verb = sql.strip().split(None, 1)[0].upper()
            on_marks = dirty in sql and verb in ('SELECT', 'DELETE')
            if n < at:
                if on_marks:
                    seg = []
                else:
                    seg.append((n, verb, sql, rows))
            else:
                if on_marks and verb == 'DELETE':
                    break
                seg.append((n, verb, sql, rows))
        else:
            return False
        reads = [n for n, verb, sql, rows in seg if verb == 'SELECT' and t in sql]
        if not reads or min(reads) >= at:
            return False
        cols = {}
        for x in ob.spec.denorms:
            if x.column is not None:
                cols.setdefault(ob.ctx.schema.table(x.model), []).append(x.column)
        written = set((tt, i) for n, verb, sql, rows in seg if verb == 'UPDATE' for tt, i in rows
                      if tt in cols and any(c in sql for c in cols[tt]) and tt in sql.split('SET')[0])
        return written <= set([(t, slot)])


def with_op(schema, pre, op):
    data = dict((t, list(rows)) for t, rows in pre.data.items())
    t = op['table']
    tab = schema.tables[t]

    def val(c, code):
        return SVal(True, 0, tab.columns[c].kind) if code is None else SVal(False, code, tab.columns[c].kind)
    if op['event'] == 'insert':
        for r in op['rows']:
            new = Row(True, dict((c, val(c, v)) for c, v in r.items()))
            for i, old in enumerate(data[t]):
                if old.cols[tab.pk].v == r[tab.pk]:
                    data[t][i] = new
                    break
            else:
                data[t].append(new)
    elif op['event'] == 'update':
        for pk, vals in op['rows']:
            for i, r in enumerate(data[t]):
                if r.guard is True and r.cols[tab.pk].v == pk:
                    data[t][i] = Row(True, dict(r.cols, **dict((c, val(c, v)) for c, v in vals.items())))
    else:
        for pk in op['rows']:
            for i, r in enumerate(data[t]):
                if r.cols[tab.pk].v == pk:
                    data[t][i] = Row(False, r.cols)
    return View(schema, data)


# ---- what programs get their inputs from -----------------------------------------------------------

class SymInputs(object):
    real = False

    def __init__(self, ob, path):
        self.ob, self.path = ob, path
        self.ctx = ob.ctx
        self.vals = {}
        self.picks = []
        self.notes = {}

    def pick(self, n):
        k = self.path.choose(n)
        self.picks.append(k)
        return k

    def sval(self, name, table, col, null=None):
        """symbolic value of a column's domain"""
        st = State(self.ctx.schema, engine.DB, 'in.')
        tab = self.ctx.schema.tables[table]
        c = tab.columns[col]
        v = st.var(name)
        isnull = st.bvar(name + '.null') if (c.null if null is None else null) else False
        self.path.assume(Implies(Not(isnull), st.domain(tab, c, v, self.ob.sizes, self.ob.spec.extra)))
        if isnull is not False:
            self.path.assume(Implies(isnull, v == 0))
        sv = SVal(isnull, v, c.kind)
        self.vals[name] = (table, col, sv)
        return sv

    def value(self, name, table, col, null=None):
        sv = self.sval(name, table, col, null)
        if sv.null is not False and self.path.decide(sv.null):
            return None
        tab = self.ctx.schema.tables[table]
        if tab.columns[col].payload:
            return SymVal(sv.v, 'text' if sv.kind in TEXTS else 'int')
        c = self.path.concretize(sv.v)
        return text_of(c) if sv.kind in TEXTS else c

    def ref(self, name, table, col):
        """a foreign key value that is NULL or points at an existing row"""
        sv = self.sval(name, table, col)
        target, tcol = self.ctx.schema.tables[table].fks[col]
        found, _ = View(self.ctx.schema, engine.DB.data).find(target, sv, tcol)
        self.path.assume(Or(sv.null, found))
        if sv.null is not False and self.path.decide(sv.null):
            return None
        return self.path.concretize(sv.v)

    def ins(self, name, table, col):
        return self.vals[name][2]

    def note(self, key, val):
        self.notes[key] = val

    def view(self):
        """the database as it is now"""
        return View(self.ctx.schema, engine.DB.snapshot())

    def committed(self):
        """the database as others see it"""
        return View(self.ctx.schema, durable())

    def asleep(self):
        from django.db import connection
        if isinstance(self.hook, SleepHook) and self.hook.at is None:
            self.hook.interfere(connection.connection)


class RealInputs(object):
    real = True

    def __init__(self, ob, real, case):
        self.ob, self.rdb, self.case = ob, real, case
        self.ctx = ob.ctx
        self.i = 0
        self.slept = False
        self.notes = {}

    def pick(self, n):
        if self.i >= len(self.case['picks']):
            # not an answer of the code under test
            raise Unsupported('the run on the real database asks for more choices than the explored one')
        k = self.case['picks'][self.i]
        self.i += 1
        return k

    def sval(self, name, table, col, null=None):
        code = self.case['inputs'].get(name)
        return SVal(code is None, code or 0, self.ctx.schema.tables[table].columns[col].kind)

    def value(self, name, table, col, null=None):
        if name not in self.case['inputs']:
            raise Unsupported('the run on the real database asks for a value the explored one did not use')
        return self.rdb.py(table, col, self.case['inputs'][name])

    def ref(self, name, table, col):
        return self.value(name, table, col)

    def ins(self, name, table, col):
        return self.sval(name, table, col)

    def note(self, key, val):
        self.notes[key] = val

    def view(self):
        return self.rdb.dump()

    def committed(self):
        return self.rdb.dump(self.rdb.other())

    def asleep(self):
        f = self.case.get('fault')
        if f and f['kind'] == 'sleep' and not self.slept:
            self.slept = True
            self.rdb.run_op(f['op'], self.rdb.other())


def note_val(v):
    """a Python value a program saw, as a value specifications can compare"""
    if isinstance(v, SymVal):
        return v.to_sval()
    if v is None or isinstance(v, (int, str)):
        return const(v)
    return const(str(v))


# ---- statement hooks ------------------------------------------------------------------------------

class Hook(object):
    """counts statements; subclasses act at them"""

    def __init__(self, ob, path):
        self.ob, self.path = ob, path
        self.n = 0
        self.at = None
        self.log = []
        self.snap = None

    def before(self, conn, kind, sql):
        if kind not in COUNTED:
            return
        self.n += 1
        if self.n > MAX_STATEMENTS:
            raise Endless()
        self.act(conn, kind, sql)
        self.snap = engine.DB.snapshot()

    def after(self, conn, kind, sql):
        if kind == 'write' and self.snap is not None:
            self.log.append((self.n, sql, touched(self.snap, engine.DB.data)))
        elif kind == 'read':
            self.log.append((self.n, sql, set()))

    def error(self, conn, kind, sql):
        pass

    def act(self, conn, kind, sql):
        pass


def touched(a, b):
    """(table, slot) of rows a statement may have changed"""
    out = set()
    for t, rows in b.items():
        old = a.get(t, ())
        for i, r in enumerate(rows):
            if i >= len(old) or old[i] is not r:
                out.add((t, i))
    return out


class CrashHook(Hook):
    """at every statement boundary: what would survive a crash satisfies the invariant"""

    def __init__(self, ob, path):
        Hook.__init__(self, ob, path)
        self.seen = None

    def act(self, conn, kind, sql):
        self.boundary(conn)

    def boundary(self, conn):
        d = conn.durable()
        key = dict((t, tuple(id(r) for r in rows)) for t, rows in d.items())
        if key == self.seen:
            return
        self.seen = key
        self.keep = d
        post = View(self.ob.ctx.schema, d)
        self.path.prove(speclib.invariant(post, self.ob.spec.denorms), 'crash',
                        fault={'kind': 'crash', 'at': self.n}, durable=dict((t, list(r)) for t, r in d.items()))


class ErrorHook(Hook):
    """one statement fails with a database error"""

    def __init__(self, ob, path):
        Hook.__init__(self, ob, path)

    def act(self, conn, kind, sql):
        if self.at is None and self.path.choose(2):
            self.at = self.n
            conn.raise_error('injected', 'injected failure')


class InterruptHook(Hook):
    """the user presses Ctrl-C before one statement"""

    def act(self, conn, kind, sql):
        if self.at is None and self.path.choose(2):
            self.at = self.n
            raise KeyboardInterrupt()


class RaceHook(Hook):
    """one statement of another client, committed between two of ours"""

    def __init__(self, ob, path):
        Hook.__init__(self, ob, path)
        self.op = None
        self.table, self.event = ob.race

    def act(self, conn, kind, sql):
        if self.at is not None or kind == 'ddl':
            return
        if conn.in_txn and engine.DB.dialect == 'sqlite3' and (conn.wrote or conn.did_read):
            return                  # the transaction holds a lock on the whole database
        if self.path.choose(2):
            self.interfere(conn)

    def interfere(self, conn):
        db = engine.DB
        ob = self.ob
        self.at = self.n
        st = State(ob.ctx.schema, db, 'race.')
        s = stmt.Setup()
        s.db, s.st, s.sizes, s.skip_fk = db, st, ob.sizes, set()
        before = db.snapshot()
        frozen = ob.maintained(self.table)
        if self.event == 'insert':
            frozen = [c for c in frozen if c not in [d.column for d in ob.spec.denorms]]
        self.op = stmt.apply_event(ob.ctx, s, self.table, self.event, frozen, 1, ob.spec.extra)
        if s.depth is not False and self.path.feasible(s.depth):
            raise Unsupported('trigger recursion bound reached')
        for k, g, m in s.errs:
            self.path.assume(Not(g))
        for c in st.cons:
            self.path.assume(c)
        for a in db.assumptions:
            self.path.assume(a)
        db.assumptions = []
        if conn.in_txn:
            self.path.assume(Not(self.blocked(conn, before, db.data)))
            # what we would roll back to now includes the other client's rows
            for snap in [conn.txn_start] + [sp for _, sp in conn.savepoints]:
                for t, i in touched(before, db.data):
                    self.replay_into(snap, before, db.data, t, i)
        if not check(self.path.solver):
            raise explore.Infeasible()
        self.before_view = View(ob.ctx.schema, before)
        self.after_view = View(ob.ctx.schema, db.snapshot())

    def replay_into(self, snap, before, after, t, i):
        rows = snap[t]
        if i < len(rows):
            rows[i] = after[t][i]
        else:
            while len(rows) < i:
                rows.append(Row(False, after[t][len(rows)].cols))
            rows.append(after[t][i])

    def blocked(self, conn, before, after):
        """the statement would wait for a lock this transaction holds"""
        out = []
        schema = self.ob.ctx.schema
        for t, i in conn.locks:
            if i < len(before[t]) and before[t][i] is not after[t][i]:
                a, b = before[t][i], after[t][i]
                out.append(Or(And(a.guard, Not(b.guard)), And(a.guard, *[]) if self.op_selects(t, i) is True else
                              And(a.guard, Or(self.op_selects(t, i), *[Not(same(a.cols[c], b.cols[c])) for c in a.cols]))))
        for t, i in conn.locks:
            if i >= len(before[t]):
                continue
            target = before[t][i]
            for t2, i2 in touched(before, after):
                tab = schema.tables[t2]
                for c, (tt, tc) in tab.fks.items():
                    if tt == t:
                        new = after[t2][i2]
                        out.append(And(new.guard, target.guard, eqv(new.cols[c], target.cols[tc])))
        return Or(*out)

    def op_selects(self, t, i):
        if self.op is None or t != self.table or self.event == 'insert':
            return False
        return self.op['rows'][i][0] if i < len(self.op['rows']) else False


class SleepHook(RaceHook):
    """one statement of another client while the program sleeps"""

    def act(self, conn, kind, sql):
        pass


class Raiser(object):
    """makes one call of a computed field's function raise"""

    def __init__(self, chooser):
        self.chooser = chooser
        self.n = 0
        self.at = None
        self.armed = False

    def call(self):
        if not self.armed:
            return
        self.n += 1
        if self.at is None and self.chooser(self.n):
            self.at = self.n
            raise InjectedError('function failed')


class InjectedError(Exception):
    pass


RAISER = None


def wrap_functions():
    """let injected failures strike the computed fields' functions (the user's code)"""
    from denorm import denorms
    from django.apps import apps
    for m in apps.get_models(include_auto_created=True):
        for f in list(m._meta.fields) + list(m._meta.many_to_many):
            d = getattr(f, 'denorm', None)
            if d is None or getattr(d, 'func', None) is None or getattr(d.func, '_wrapped', False):
                continue

            def make(orig):
                def func(*a, **kw):
                    if RAISER is not None:
                        RAISER.call()
                    return orig(*a, **kw)
                func._wrapped = True
                return func
            d.func = make(d.func)


def reset_connection():
    from django.db import connections
    from django.contrib.contenttypes.models import ContentType
    from django.core.cache import caches
    for c in connections.all():
        c.connection = None
        c.in_atomic_block = False
        c.savepoint_ids = []
        c.savepoint_state = 0
        c.needs_rollback = False
        c.closed_in_transaction = False
        c.autocommit = False
        c.commit_on_exit = True
        c.run_on_commit = []
        c.ensure_connection()
        c.autocommit = True
    ContentType.objects.clear_cache()
    caches['default'].clear()


# ---- the obligation ---------------------------------------------------------------------------------

class FlowOb(object):
    """mode: plain | crash | error | raise | interrupt | race | sleep"""

    def __init__(self, ctx, spec, program, mode='plain', race=None, goal='fresh', sizes=None, marks=2, outer=False,
                 stale='marked', cube=None):
        self.ctx, self.spec = ctx, spec
        self.program, self.mode, self.race, self.goal = program, mode, tuple(race) if race else None, goal
        self.sizes = sizes or getattr(spec, 'flow_sizes', None) or spec.sizes
        self.marks = marks
        self.outer = outer
        self.stale = stale
        self.cube = cube or {}
        self.deadline = None
        self.seed = 0
        self.shard, self.shards = 0, 1

    def desc(self):
        return {'ob': 'flow', 'program': self.program, 'mode': self.mode, 'race': self.race, 'goal': self.goal,
                'sizes': self.sizes, 'marks': self.marks, 'outer': self.outer, 'stale': self.stale, 'cube': self.cube}

    @classmethod
    def from_desc(cls, ctx, spec, d):
        return cls(ctx, spec, d['program'], d['mode'], d['race'], d['goal'], d['sizes'], d['marks'], d['outer'], d['stale'],
                   d['cube'])

    splits = True

    def cubes(self):
        """the same obligation split by how many rows and marks exist"""
        import itertools
        tabs = [t for t, n in self.sizes.items()] + ([self.ctx.schema.dirty] if self.marks else [])
        ns = [range(self.sizes[t] + 1) if t in self.sizes else range(self.marks + 1) for t in tabs]
        out = []
        for combo in itertools.product(*ns):
            out.append(FlowOb(self.ctx, self.spec, self.program, self.mode, self.race, self.goal, self.sizes, self.marks,
                              self.outer, self.stale, dict(zip(tabs, combo))))
        return out

    def maintained(self, table):
        """columns only the library writes"""
        out = []
        for x in list(self.spec.denorms) + list(self.spec.aggs) + list(self.spec.keys):
            if x.column is not None and self.ctx.schema.table(x.model) == table:
                out.append(x.column)
        return out

    def prog(self):
        from . import programs
        return programs.get(self.spec, self.program)

    def goals(self):
        from . import programs
        return programs.goal(self.spec, self.goal)

    # ---- symbolic side
    def build(self):
        ctx, spec = self.ctx, self.spec
        db = ctx.fresh_db()
        st = State(ctx.schema, db)
        st.populate(self.sizes, spec.extra)
        cts = sorted(set(ctx.schema.ct[d.model] for d in spec.denorms)) or sorted(ctx.schema.ct.values())[:1]
        max_oid = max([self.sizes.get(ctx.schema.table(d.model), 0) for d in spec.denorms] or [1]) + 1
        if self.marks:
            text_cts = [ctx.schema.ct[d.model] for d in spec.denorms
                        if ctx.schema.tables[ctx.schema.table(d.model)].columns[ctx.schema.tables[
                            ctx.schema.table(d.model)].pk].kind == 'text']
            st.free_marks(self.marks, cts + [ctx.schema.ghost], max_oid, self.mode != 'race', text_cts)
        # rows occupy the lowest ids (renaming ids gives the other states); the cube fixes how many exist
        for t in list(self.sizes) + [ctx.schema.dirty]:
            rows = db.data[t]
            for a, b in zip(rows, rows[1:]):
                st.cons.append(Implies(b.guard, a.guard))
            n = self.cube.get(t)
            if n is not None:
                for i, r in enumerate(rows):
                    st.cons.append(r.guard if i < n else Not(r.guard))
        pre = View(ctx.schema, db.snapshot())
        st.cons.append(st.integrity(db.data, list(self.sizes), set()))
        if hasattr(spec, 'assume'):
            st.cons.append(spec.assume(pre))
        if self.stale == 'marked':
            st.cons.append(speclib.invariant(pre, spec.denorms))
        if self.stale != 'any':
            for a in spec.aggs:
                for r in pre.rows(a.model):
                    st.cons.append(Implies(r.exists, same(r[a.column], a.fn(pre, r))))
        return st, pre

    def decide(self):
        global RAISER
        st, pre = self.build()
        snap = engine.DB.snapshot()
        base = list(st.cons)
        if self.ctx.schema.folds:
            base += fold_facts()
        wrap_functions()
        ex = Explorer(base, max_paths=40000, deadline=self.deadline)
        res = {'desc': self.desc(), 'status': 'proved', 'witnesses': [], 'vacuous': False}
        want = 3
        tables = list(self.sizes) + [self.ctx.schema.dirty]
        seen = {'n': 0, 'ok': 0, 'hit': 0}
        known = {}
        goal = self.goals()

        def run(path):
            global RAISER
            db = self.ctx.fresh_db()
            db.restore(snap)
            reset_connection()
            h = SymInputs(self, path)
            hook = HOOKS[self.mode](self, path)
            h.hook = hook
            out = Outcome()
            out.hook = hook
            RAISER = Raiser((lambda n: path.choose(2)) if self.mode == 'raise' else (lambda n: False))
            h.chance = chance.SymDraws(path)
            path.info = {'h': h, 'hook': hook, 'raiser': RAISER, 'out': out}
            engine.HOOKS[:] = [hook]
            try:
                execute(self, h, out, RAISER)
                out.mid = None
                if self.mode in ('error', 'raise') and (hook.at if self.mode == 'error' else RAISER.at) and \
                        getattr(goal, 'retry', True):
                    out.mid = View(self.ctx.schema, durable())
                    again(self, h, out)
                if self.mode == 'crash':
                    from django.db import connection
                    hook.boundary(connection.connection)
            except Endless:
                engine.HOOKS[:] = []
                path.prove(False, 'does not terminate', endless=True)
            finally:
                engine.HOOKS[:] = []
                RAISER = None
            for a in db.assumptions:
                path.assume(a)
            db.assumptions = []
            post = View(self.ctx.schema, durable() if getattr(goal, 'durable', False) else db.snapshot())
            path.info['post'] = post
            seen['n'] += 1
            fired = {'plain': True, 'crash': True, 'raise': path.info['raiser'].at}.get(self.mode, hook.at)
            if fired:
                seen['hit'] += 1
            strong = []
            for label, p, kid in goal(self, h, pre, post, out):
                strong.append(p)
                if kid is None or p is True:
                    path.prove(p, label)
                elif not known.get(kid) and check(path.solver, boolref(Not(p))):
                    known[kid] = dict(self.case(path.solver.model(), pre, post, path), label=label)
            # keep some runs for validation on the real database
            if fired and (len(res['witnesses']) < want):
                every = 1 if seen['hit'] < 3 else 7
                if seen['hit'] % every == 0 or seen['hit'] == 1:
                    m = path.witness(And(*strong))
                    if m is not None:
                        STATS.witnesses += 1
                        res['witnesses'].append(self.case(m, pre, post, path))

        ex.explore(run, shard=self.shard, shards=self.shards)
        res['paths'] = ex.paths
        res['frontier'] = ex.frontier
        if not ex.complete:
            res['incomplete'] = True
        if ex.violations:
            v = ex.violations[0]
            info = v.info
            post = info.get('post')
            c = self.case(v.model, pre, post, v)
            if info.get('fault'):
                c['fault'] = info['fault']
            res.update(status='violated', what=v.label, case=c)
            return res
        if not seen['hit'] and self.shards == 1:
            res['vacuous'] = True
        res['hit'] = seen['hit']
        res['known'] = [{'id': k, 'case': c} for k, c in known.items()]
        return res

    def case(self, m, pre, post, path):
        tables = list(self.sizes) + [self.ctx.schema.dirty]
        info = path.info
        h, hook = info['h'], info['hook']
        c = {'init': eval_data(m, self.ctx.schema, pre.data, tables), 'inputs': {}, 'picks': list(h.picks), 'fault': None}
        for name, (t, col, sv) in h.vals.items():
            c['inputs'][name] = eval_val(m, sv)
        c['draws'] = [eval_int(m, v) for v, lo, hi in h.chance.draws]
        if self.ctx.schema.folds:
            c['folds'] = dict((str(k), v) for k, v in fold_classes(m).items())
        if self.mode in ('error', 'interrupt') and hook.at:
            c['fault'] = {'kind': self.mode, 'at': hook.at}
        if self.mode in ('race', 'sleep') and hook.at:
            c['fault'] = {'kind': self.mode, 'at': hook.at, 'op': stmt.op_json(m, hook.op)}
        if self.mode == 'raise' and info['raiser'].at:
            c['fault'] = {'kind': 'raise', 'at': info['raiser'].at}
        c['outcome'] = type(info['out'].exc).__name__ if info['out'].exc is not None else None
        if post is not None:
            c['post'] = eval_data(m, self.ctx.schema, post.data, tables)
        return c

    # ---- concrete side
    def replay(self, real, case):
        global RAISER
        pre, post, out, h, endless = self.real_runs(real, case)
        return {'violated': self.judge(pre, post, out, h, endless, case)}

    def judge(self, pre, post, out, h, endless, case):
        if endless:
            return '%s does not terminate' % self.program
        if (case.get('fault') or {}).get('kind') == 'crash':
            bad = stale_rows(post, self.spec.denorms)
            return 'after a crash before statement %d: %s' % (case['fault']['at'], bad) if bad else None
        for label, p, kid in self.goals()(self, h, pre, post, out):
            if p is not True:
                p = p if isinstance(p, bool) else eval(str(p))
            if not p:
                return describe(self, label, post, out, case)
        return None

    def real_runs(self, real, case):
        if getattr(self.goals(), 'twice', False):
            # the same again with other random draws
            second = real_run(self, real, case, other=True)
            res = real_run(self, real, case)
            res[3].second = second
            return res
        return real_run(self, real, case)

    def validate(self, real, case):
        from . import realdb
        pre, post, out, h, endless = self.real_runs(real, case)
        bad = self.judge(pre, post, out, h, endless, case)
        got_exc = type(out.exc).__name__ if out.exc is not None else None
        if endless:
            return {'mismatch': 'does not terminate', 'violated': bad}
        if (got_exc is None) != (case['outcome'] is None):
            return {'mismatch': 'outcome %s, expected %s (%s)' % (got_exc, case['outcome'], out.exc), 'violated': bad}
        post2 = View(real.schema, dict((t, [r for r in rows if r.guard is True]) for t, rows in post.data.items()))
        got = realdb.data_json(real.schema, post2, list(case['post']))
        ignore = set('%s.%s' % (self.ctx.schema.table(k.model), k.column) for k in self.spec.keys)
        return {'mismatch': realdb.same_state(real.schema, case['post'], got, ignore), 'violated': bad}


HOOKS = {'plain': Hook, 'raise': Hook, 'crash': CrashHook, 'error': ErrorHook, 'race': RaceHook,
         'interrupt': InterruptHook, 'sleep': SleepHook}


def stale_rows(view, denorms):
    for d in denorms:
        for r in view.rows(d.model):
            if not speclib.inv_row(view, d, r):
                return d.describe(view, r) + ', and the row is not marked'
    return None


def describe(ob, label, post, out, case):
    s = '%s: %s' % (ob.program, label)
    f = case.get('fault')
    if f and f['kind'] in ('race', 'sleep'):
        s += ' after another client ran %s on %s %s before statement %d' % (
            f['op']['event'], f['op']['table'], f['op']['rows'], f['at'])
    elif f:
        s += ' after %s at %d' % (f['kind'], f['at'])
    if out.exc is not None:
        s += ' (%s: %s)' % (type(out.exc).__name__, out.exc)
    bad = stale_rows(post, ob.spec.denorms)
    if bad:
        s += ' [%s]' % bad
    return s


def execute(ob, h, out, raiser):
    """run the program once (and, after a failure, whatever the goal wants to run next)"""
    from django.db import transaction
    fn = ob.prog()
    raiser.armed = True
    chance.PROVIDER = h.chance
    try:
        if ob.outer:
            with transaction.atomic():
                out.value = fn(h)
        else:
            out.value = fn(h)
    except Exception as e:
        if isinstance(e, AssertionError):
            raise
        out.exc = e
    finally:
        raiser.armed = False
        chance.PROVIDER = None


def again(ob, h, out):
    """the cause of the failure is gone: run the program once more"""
    out.first, out.exc = out.exc, None
    out.notes = dict(h.notes)
    chance.PROVIDER = h.chance
    try:
        out.value = ob.prog()(h)
    except Exception as e:
        out.exc = e
    finally:
        chance.PROVIDER = None


# ---- the same on a real database ----------------------------------------------------------------------

class Crash(BaseException):
    pass


class Wrapper(object):
    def __init__(self, ob, real, fault):
        self.ob, self.real, self.fault = ob, real, fault or {}
        self.n = 0

    def __call__(self, execute_, sql, params, many, context):
        verb = sql.strip().split(None, 1)[0].lower()
        if verb in ('select', 'insert', 'update', 'delete', 'create', 'drop', 'show'):
            self.n += 1
            if self.n > MAX_STATEMENTS:
                raise Endless()
            if self.fault.get('at') == self.n:
                k = self.fault['kind']
                if k == 'crash':
                    raise Crash()
                if k == 'error':
                    from django.db.utils import OperationalError
                    raise OperationalError('injected failure')
                if k == 'interrupt':
                    raise KeyboardInterrupt()
                if k == 'race':
                    self.real.run_op(self.fault['op'], self.real.other())
        return execute_(sql, params, many, context)


def real_run(ob, real, case, other=False):
    global RAISER
    from django.db import connection
    from . import realdb
    wrap_functions()
    real.drop_all_triggers()
    real.clear()
    real.load(case)
    pre = real.dump()
    if getattr(ob.spec, 'install', True):
        install.install()
    real.fresh_caches()
    h = RealInputs(ob, real, case)
    h.chance = chance.Recorded(case.get('draws', ()), other)
    fault = case.get('fault')
    RAISER = Raiser((lambda n: fault and fault['kind'] == 'raise' and fault['at'] == n) )
    out = Outcome()
    out.op = fault['op'] if fault and fault['kind'] in ('race', 'sleep') else None
    w = Wrapper(ob, real, fault)
    endless = False
    try:
        with connection.execute_wrapper(w):
            execute(ob, h, out, RAISER)
            out.mid = None
            if fault and fault['kind'] in ('error', 'raise') and getattr(ob.goals(), 'retry', True):
                out.mid = real.dump()
                again(ob, h, out)
            if fault and fault['kind'] == 'crash':
                if w.n >= fault['at']:
                    raise Crash()
    except Crash:
        real.reconnect()
    except Endless:
        endless = True
        real.reconnect()
    finally:
        RAISER = None
    if not connection.get_autocommit() or connection.in_atomic_block:
        real.reconnect()
    post = real.dump()
    if getattr(out, 'mid', None) is not None:
        out.mid = realdb.align(real.schema, pre, out.mid)[1]
    pre, post = realdb.align(real.schema, pre, post)
    return pre, post, out, h, endless
