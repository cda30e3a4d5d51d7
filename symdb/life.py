"""Obligations about the trigger catalogue: installing and removing, any starting catalogue, any name of the
application's own trigger, a failure at any statement."""
import z3

from .terms import And, Not
from .store import TriggerDef, Unsupported
from . import engine, explore, names
from .explore import STATS, Explorer, check
from .flow import reset_connection

PREFIX = 'denorm_'
EVENTS = ('insert', 'update', 'delete')
LISTED = ['audit', 'denormalize', 'denorm', 'denorm-x', 'denormXaudit', 'Denorm_audit', 'DENORM_', 'xdenorm_a', 'adenorm_',
          'my_denorm_audit', '_denorm_', 'denor_m', 'd', '0', 'after_row', 'denormal_after_row_insert', 'DENORM_after_row',
          'trigger', 'denorm$after', 'deNorm_after_row', 'sync_denorm_']
VERBS = ('select', 'insert', 'update', 'delete', 'create', 'drop', 'show')


class Injected(Exception):
    pass


class FaultHook(object):
    """one statement fails"""

    def __init__(self, path):
        self.path = path
        self.n = 0
        self.at = None
        self.call = None
        self.armed = False

    def before(self, conn, kind, sql):
        if not self.armed or (conn, conn.calls) == self.call:
            return
        self.call = (conn, conn.calls)
        self.n += 1
        if self.at is None and self.path.choose(2):
            self.at = self.n
            conn.raise_error('injected', 'injected failure')

    def after(self, conn, kind, sql):
        pass
    error = after


def run_op(op, alias):
    from denorm import denorms
    from django.core.management import call_command
    if op.startswith('cmd_'):
        call_command({'cmd_install': 'denorm_init', 'cmd_drop': 'denorm_drop'}[op], **({'database': alias} if alias else {}))
    else:
        {'install': denorms.install_triggers, 'drop': denorms.drop_triggers}[op](**({'using': alias} if alias else {}))


OPS = ('install', 'drop', 'cmd_install', 'cmd_drop')


class LifeOb(object):
    splits = True

    def __init__(self, ctx, spec, steps=1, fault=False, listed=False, every=False):
        self.ctx, self.spec, self.steps, self.fault, self.listed = ctx, spec, steps, fault, listed
        self.every = every
        self.deadline = None
        self.seed = 0
        self.shard, self.shards = 0, 1

    def desc(self):
        return {'ob': 'life', 'steps': self.steps, 'fault': self.fault, 'names': 'listed' if self.listed else 'any', 'every': self.every,
                'sizes': {'commands': self.steps, 'length of the foreign name': names.MAXLEN, 'foreign triggers': 1}}

    @classmethod
    def from_desc(cls, ctx, spec, d):
        return cls(ctx, spec, d['steps'], d['fault'], d['names'] == 'listed', d['every'])

    def foreign_places(self):
        """where the application's own trigger may sit"""
        ts = [t.table for t in self.ctx.template.triggers]
        free = next((t for t in self.ctx.schema.order if t not in ts), None)
        out = [(ts[0], 'update')]
        if free is not None:
            out.append((free, 'insert'))
        return out

    def leftover(self):
        """a table whose trigger is not needed any more"""
        have = set((t.table, t.event) for t in self.ctx.template.triggers)
        for t in self.ctx.schema.order:
            for e in EVENTS:
                if (t, e) not in have:
                    return t, e
        return None

    # ---- symbolic side
    def decide(self):
        try:
            return self.attempt()
        except (Unsupported, TypeError) as e:
            if self.listed:
                raise
            # the code does something with names the string theory cannot follow: listed names only
            self.listed = True
            r = self.attempt()
            r['note'] = 'names restricted to a list: %s' % e
            return r

    def attempt(self):
        from .harness import View
        dialect = self.ctx.schema.dialect
        current = list(self.ctx.template.triggers)
        lib = [t.name for t in current]
        res = {'desc': self.desc(), 'status': 'proved', 'witnesses': [], 'vacuous': False}
        ex = Explorer([], max_paths=200000, deadline=self.deadline)
        seen = {'n': 0}
        places = self.foreign_places()

        def run(path):
            db = self.ctx.fresh_db()
            reset_connection()
            names.TERMS[:] = []
            case = {}
            path.info = {'case': case}
            # an installation that stopped half way leaves the first triggers
            stops = sorted(set([0, len(current) // 2, len(current)])) if not self.every else range(len(current) + 1)
            k = case['kept'] = stops[path.choose(len(stops))]
            case['outdated'] = bool(k and path.choose(2))
            case['leftover'] = None
            trigs = []
            for t in current[:k]:
                if case['outdated']:
                    t = TriggerDef(t.name, t.time, t.event, t.table, None, t.prog, [], t.seq, 'outdated')
                trigs.append(t)
            if not k:
                db.functions = {}
            left = self.leftover()
            if left and path.choose(2):
                t, e = left
                case['leftover'] = ['denorm_after_row_%s_on_%s' % (e, t), t, e]
                trigs.append(TriggerDef(case['leftover'][0][:60], 'after', e, t, None, ('call', 'noop'), [], 0, 'leftover'))
            case['foreign'] = None
            term = None
            f = path.choose(1 + len(places))
            if f:
                table, event = places[f - 1]
                if self.listed:
                    token = LISTED[path.choose(len(LISTED))]
                else:
                    token, term, cons = names.fresh('name')
                    for c in cons:
                        path.assume(c)
                    path.assume(Not(z3.PrefixOf(z3.StringVal(PREFIX), term)))
                    for n in lib + ([case['leftover'][0]] if case['leftover'] else []):
                        if len(n) <= names.MAXLEN:
                            path.assume(Not(z3.InRe(term, names.any_case(n))))
                case['foreign'] = [token, table, event]
                trigs.insert((f + 1) % 2 * len(trigs), TriggerDef(token, 'after', event, table, None, ('call', 'noop'),
                                                                     [], 0, 'foreign'))
            db.functions['noop'] = ('', None)
            db.triggers = list(trigs)
            alias = [None, 'other'][path.choose(2)]
            case['alias'] = alias
            case['ops'] = []
            case['fault'] = None
            hook = FaultHook(path)
            engine.HOOKS[:] = [hook]
            path.info['term'] = term

            def expect(op, label):
                got = sorted(sig(t) for t in db.triggers if t.sql != 'foreign')
                want = sorted(sig(t) for t in current) if 'install' in op else []
                path.prove([t for t in db.triggers if t.sql == 'foreign'] == [t for t in trigs if t.sql == 'foreign'],
                           "%s the application's own trigger is gone" % label)
                path.prove(got == want, '%s the triggers are not the expected ones' % label)
                if 'install' in op and dialect == 'postgresql':
                    path.prove(all(db.functions.get(t.prog[1]) == self.ctx.template.functions.get(t.prog[1]) for t in current),
                               '%s the functions are not the expected ones' % label)
            try:
                for n in range(self.steps):
                    op = OPS[path.choose(2) + (2 if (alias or n) and path.choose(2) else 0)]
                    case['ops'].append(op)
                    before = db.catalogue_state()
                    hook.armed = self.fault and n == self.steps - 1
                    hook.n = 0
                    exc = None
                    try:
                        run_op(op, alias)
                    except Exception as e:
                        if 'SymStr' in str(e):
                            raise Unsupported(str(e))
                        exc = e
                    hook.armed = False
                    if hook.at is None:
                        if exc is not None:
                            path.info['exc'] = '%s: %s' % (type(exc).__name__, exc)
                        path.prove(exc is None, '%s fails (%s)' % (op, exc))
                        expect(op, 'after %s' % op)
                        continue
                    case['fault'] = hook.at
                    path.prove(exc is not None, '%s hides a database error' % op)
                    path.prove([t for t in db.triggers if t.sql == 'foreign'] == [t for t in trigs if t.sql == 'foreign'],
                               "after a failing %s the application's own trigger is gone" % op)
                    if dialect != 'mysql':
                        path.prove(sorted(map(sig, db.triggers)) == sorted(map(sig, before[0])),
                                   'a failing %s changed the triggers' % op)
                    reset_connection()
                    try:
                        run_op(op, alias)
                    except Exception as e:
                        path.prove(False, '%s after a failed one fails (%s)' % (op, e))
                    expect(op, 'after repeating a failed %s' % op)
            finally:
                engine.HOOKS[:] = []
                hook.armed = False
            if self.fault and hook.at is None:
                return
            seen['n'] += 1
            if len(res['witnesses']) < 6 and seen['n'] % (1 if seen['n'] < 3 else 23) == 0:
                m = path.witness()
                if m is not None:
                    STATS.witnesses += 1
                    res['witnesses'].append(self.concrete(m, case, term))

        ex.explore(run, shard=self.shard, shards=self.shards)
        res['paths'] = ex.paths
        res['frontier'] = ex.frontier
        res['desc'] = self.desc()
        if not ex.complete:
            res['incomplete'] = True
        if ex.violations:
            v = ex.violations[0]
            res.update(status='violated', what=v.label, case=self.concrete(v.model, v.info['case'], v.info.get('term')))
            return res
        res['hit'] = seen['n']
        if not seen['n'] and self.shards == 1:
            res['vacuous'] = True
        return res

    def concrete(self, m, case, term):
        c = dict(case)
        c['all'] = [[t.table, t.event] for t in self.ctx.template.triggers]
        if term is not None:
            s = m.eval(term, model_completion=True).as_string()
            c['foreign'] = [s] + list(case['foreign'][1:])
        return c

    # ---- real side
    def replay(self, real, case):
        return {'violated': self.observe(real, case)}

    def validate(self, real, case):
        return {'violated': self.observe(real, case), 'mismatch': None}

    def observe(self, real, case):
        from denorm import denorms
        from django.db import connections
        real.drop_all_triggers()
        real.clear()
        denorms.install_triggers()
        reference = real.catalogue()
        real.fresh_caches()
        # shortened names end in random letters, so triggers are told apart by table and event
        order = [list(x) for x in case['all']]
        for key in sorted(reference):
            i = order.index([key[1], reference[key][0].lower()])
            order[i] = None
            if i >= case['kept'] or case['outdated']:
                real.drop_trigger(*key)
            if i < case['kept'] and case['outdated']:
                real.noop_trigger(key[0], key[1], reference[key][0].lower())
        mine = None
        if case['leftover']:
            real.noop_trigger(case['leftover'][0][:60], case['leftover'][1], case['leftover'][2])
        if case['foreign']:
            real.noop_trigger(*case['foreign'])
            mine = tuple(case['foreign'][:2])
        state = real.catalogue()
        own = state[mine] if mine else None

        def wrong(op, label):
            now = real.catalogue()
            if mine and now.get(mine) != own:
                return "%s the application's own trigger %s is gone" % (label, mine[0])
            rest = dict((k, v) for k, v in now.items() if k != mine)
            if plain(rest) != (plain(reference) if 'install' in op else []):
                return '%s the triggers are %s' % (label, sorted(k[0] for k in rest))

        class Fault(object):
            n = 0

            def __call__(self, execute, sql, params, many, context):
                verb = sql.strip().split(None, 1)[0].lower()
                if verb in VERBS:
                    self.n += 1
                    if self.n == case['fault']:
                        from django.db.utils import OperationalError
                        raise OperationalError('injected failure')
                return execute(sql, params, many, context)
        for n, op in enumerate(case['ops']):
            failing = case['fault'] and n == len(case['ops']) - 1
            before = real.catalogue()
            exc = None
            try:
                if failing:
                    fault = Fault()
                    with connections['default'].execute_wrapper(fault), connections['other'].execute_wrapper(fault):
                        run_op(op, case['alias'])
                else:
                    run_op(op, case['alias'])
            except Exception as e:
                exc = e
            if failing:
                if exc is None:
                    return '%s hides a database error' % op
                now = real.catalogue()
                if self.ctx.schema.dialect != 'mysql' and now != before:
                    return 'a failing %s changed the triggers: %s' % (op, sorted(k[0] for k in now))
                if mine and now.get(mine) != own:
                    return "after a failing %s the application's own trigger %s is gone" % (op, mine[0])
                try:
                    run_op(op, case['alias'])
                except Exception as e:
                    return '%s after a failed one fails: %s: %s' % (op, type(e).__name__, e)
            elif exc is not None:
                return '%s fails: %s: %s' % (op, type(exc).__name__, exc)
            bad = wrong(op, 'after %s' % op)
            if bad:
                return bad
        return None


def plain(triggers):
    """what the triggers do, without their names"""
    return sorted((t, e, d.replace(n, '')) for (n, t), (e, d) in triggers.items())


def sig(t):
    return (t.table, t.event, t.time, t.sql.replace(t.name, ''), repr([(p.null, p.v) for p in t.params or ()]))
