"""Path exploration of real Python code over symbolic values, by re-execution.

`Explorer.explore(fn)` runs fn once per feasible path.  Whenever the code branches on a
symbolic value the explorer asks the solver which outcomes are possible, follows one and
queues the other; a value the code needs concretely (a hash, a primary key) is enumerated
through the solver.
"""
import time
from .terms import z3, And, Or, Not, SVal, text_of, text_code, _num
from .store import Unsupported

CUR = None


class Infeasible(BaseException):
    pass


class Stop(BaseException):
    """end the current path early (crash point reached)"""


class Budget(BaseException):
    pass


class Violation(object):
    def __init__(self, label, model, path, info):
        self.label = label
        self.model = model
        self.path = path
        self.info = info


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.witnesses = 0

    def add(self, o):
        for k, v in vars(o).items():
            setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        d = dict(vars(self))
        d['solver_s'] = round(self.solver_s, 3)
        return d


STATS = Stats()


def check(solver, *assumptions):
    t = time.time()
    STATS.queries += 1
    r = solver.check(*assumptions)
    STATS.solver_s += time.time() - t
    if r == z3.unknown:
        raise Unsupported('solver returned unknown: %s' % solver.reason_unknown())
    if r == z3.sat:
        STATS.sat += 1
        return True
    STATS.unsat += 1
    return False


def boolref(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Path(object):
    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.timeout_ms)
        for c in explorer.base:
            self.solver.add(boolref(c))
        self.pc = []
        self.info = {}
        self.n = 0
        self.decided = {}           # condition -> outcome already settled on this path
        self.model = None           # satisfies everything assumed so far, if known

    def assume(self, c):
        if c is True:
            return
        if self.model is not None and not self.holds(c):
            self.model = None
        self.pc.append(c)
        self.solver.add(boolref(c))

    def feasible(self, c):
        if c is True or c is False:
            return c if c is False else True
        ok = check(self.solver, c)
        if ok:
            self.model = self.solver.model()
        return ok

    def holds(self, c):
        """c is true in the current model"""
        if c is False:
            return False
        return z3.is_true(self.model.eval(c, model_completion=True))

    def decide(self, c, why=''):
        """truth of a symbolic condition on this path"""
        if c is True or c is False:
            return c
        key = c.ast.value
        if key in self.decided:
            return self.decided[key][1]
        n = Not(c)
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.assume(c if d else n)
            self.decided[key], self.decided[n.ast.value] = (c, d), (n, not d)
            return d
        STATS.decisions += 1
        if self.model is not None:
            if self.holds(c):
                yes, no = True, self.other(Not(c))
            else:
                no, yes = True, self.other(c)
        else:
            yes = self.feasible(c)
            no = self.other(Not(c)) if yes else True
        if not yes and not no:
            raise Infeasible()
        if yes and no:
            self.ex.push(self.taken + [not self.ex.prefer(c)])
            d = self.ex.prefer(c)
        else:
            d = yes
        self.taken.append(d)
        self.assume(c if d else n)
        self.decided[key], self.decided[n.ast.value] = (c, d), (n, not d)
        return d

    def other(self, c):
        """feasibility of the branch the current model does not take"""
        return check(self.solver, c)

    def choose(self, n, why=''):
        """a free choice among n alternatives"""
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            return d
        STATS.decisions += 1
        for k in range(n - 1, 0, -1):
            self.ex.push(self.taken + [k])
        self.taken.append(0)
        return 0

    def concretize(self, term):
        """one of the values the term can take; the others are queued (in an order no solver choice affects)"""
        if _num(term):
            return term
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.assume(term == d[1])
            return d[1]
        STATS.decisions += 1
        vals = []
        if self.model is not None:
            vals.append(self.model.eval(term, model_completion=True).as_long())
        while self.other(And(*[term != x for x in vals])) if vals else check(self.solver):
            vals.append(self.solver.model().eval(term, model_completion=True).as_long())
            if len(vals) > 64:
                raise Unsupported('value of %s is not bounded' % term)
        if not vals:
            raise Infeasible()
        vals.sort()
        for v in vals[:0:-1]:
            self.ex.push(self.taken + [('c', v)])
        self.taken.append(('c', vals[0]))
        self.assume(term == vals[0])
        return vals[0]

    def prove(self, prop, label, **info):
        """obligation: prop holds for every value on this path"""
        STATS.obligations += 1
        if prop is True:
            return True
        if self.feasible(Not(prop)) is False:
            return True
        if prop is False:
            if not check(self.solver):
                return True
        m = self.solver.model()
        d = dict(self.info)
        d.update(info)
        self.ex.violations.append(Violation(label, m, list(self.taken), d))
        raise Stop()

    def witness(self, c=True):
        if check(self.solver, boolref(c)):
            return self.solver.model()
        return None


class Explorer(object):
    def __init__(self, base, max_paths=20000, timeout_ms=60000, max_violations=1, deadline=None, seed=0):
        self.base = list(base)
        self.work = []
        self.violations = []
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.max_violations = max_violations
        self.deadline = deadline
        self.complete = True
        self.paths = 0
        self.errors = []

    def prefer(self, c):
        return True

    def push(self, prefix):
        self.work.append(list(prefix))

    def explore(self, fn, on_path_end=None, shard=0, shards=1):
        """with shards, every process expands the same first prefixes and then follows its share of them"""
        global CUR
        self.work = [[]]
        split = shards == 1
        self.frontier = ''
        while self.work:
            if not split and len(self.work) >= 12 * shards:
                split = True
                import hashlib
                self.frontier = hashlib.sha1(repr(self.work).encode()).hexdigest()
                self.work = [w for i, w in enumerate(self.work) if i % shards == shard]
                if not self.work:
                    break
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.complete = False
                break
            prefix = self.work.pop(-1 if split else 0)
            path = Path(self, prefix)
            CUR = path
            self.paths += 1
            STATS.paths += 1
            try:
                fn(path)
                if on_path_end:
                    on_path_end(path)
            except (Stop, Infeasible):
                pass
            finally:
                CUR = None
            if len(self.violations) >= self.max_violations:
                break
        return self


# ---- proxies handed to the code under test -------------------------------------------

def lift(x):
    if isinstance(x, SymVal):
        return x.v
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    return None


def wrap(v, kind='int'):
    if _num(v):
        if kind == 'text':
            return text_of(v)
        return v
    return SymVal(v, kind)


MAGIC = 7770000000000000000000   # a number written with %d stands for a term as well
TOKENS = None                   # text of symbolic numbers -> their terms, where a program builds names from them


class SymBool(object):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CUR.decide(self.b)


def mkbool(b):
    return b if isinstance(b, bool) else SymBool(b)


class SymVal(object):
    """a non-NULL symbolic column value"""
    __slots__ = ('v', 'kind')

    def __init__(self, v, kind='int'):
        self.v = v
        self.kind = kind

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return wrap(self.v + o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return wrap(self.v - o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return wrap(o - self.v)

    def __mul__(self, o):
        o = lift(o)
        if o is None or not _num(o):
            return NotImplemented
        return wrap(self.v * o)
    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.v < 0, -self.v, self.v))

    def __mod__(self, o):
        # the solver's division by a positive number rounds like Python's
        if self.kind == 'text' or not isinstance(o, int) or o <= 0:
            return NotImplemented
        return wrap(self.v % o)

    def __floordiv__(self, o):
        if self.kind == 'text' or not isinstance(o, int) or o <= 0:
            return NotImplemented
        return wrap(self.v / o)

    def __and__(self, o):
        if self.kind == 'text' or not isinstance(o, int) or o < 0 or o & (o + 1):
            return NotImplemented
        return wrap(self.v % (o + 1))
    __rand__ = __and__

    def __rshift__(self, o):
        return self // (1 << o)

    def _cmp(self, o, f):
        if self.kind == 'text' and isinstance(o, str):
            o = text_code(o)
        else:
            o = lift(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.v, o))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        if self.kind == 'text':
            return CUR.decide(self.v != text_code(''))
        return CUR.decide(self.v != 0)

    def conc(self):
        v = CUR.concretize(self.v)
        return text_of(v) if self.kind == 'text' else v

    def __int__(self):
        if TOKENS is not None and self.kind == 'int' and not _num(self.v):
            TOKENS[self.v.get_id()] = self.v
            return MAGIC + self.v.get_id()
        return int(self.conc())

    def __index__(self):
        return int(self.conc())

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        if TOKENS is not None and self.kind == 'int':
            TOKENS[self.v.get_id()] = self.v
            return '\x02%d\x03' % self.v.get_id()
        return str(self.conc())

    def __repr__(self):
        return 'SymVal(%s)' % self.v

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def to_sval(self):
        return SVal(False, self.v, self.kind)
