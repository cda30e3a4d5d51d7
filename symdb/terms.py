"""Symbolic SQL values: a z3 Int term plus a NULL flag, with three-valued logic.

Every scalar is an integer code.  Integers stand for themselves; a text that is
the canonical decimal form of an integer has that integer as its code (so that
an id written into a text column keeps its identity); any other text has a
negative code below TEXT_BASE, handed out by `text_code`.
"""
import sys

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

TEXT_BASE = -10 ** 9
_texts = {}
_texts_rev = {}


def text_code(s):
    s = str(s)
    if s.isdigit() and str(int(s)) == s:
        return int(s)
    if s not in _texts:
        code = min(_texts_rev or [TEXT_BASE]) - 1
        _texts[s] = code
        _texts_rev[code] = s
    return _texts[s]


def text_table():
    return dict((str(c), s) for c, s in _texts_rev.items())


def adopt_texts(table):
    """use the codes another process gave to texts"""
    _texts.clear()
    _texts_rev.clear()
    for c, s in table.items():
        _texts[s] = int(c)
        _texts_rev[int(c)] = s


def text_of(code):
    if code in _texts_rev:
        return _texts_rev[code]
    if code >= 0:
        return str(code)
    return None


# ---- hash-consing: re-executed paths build the same terms again and again ----

z3.z3.Z3_DEBUG = False
_ctx = z3.main_ctx()
_ref = _ctx.ref()
_core = z3.z3core
_memo = {}


def _remember(key, r):
    if len(_memo) > 400000:
        _memo.clear()
    _memo[key] = r
    return r


def _nary(op, mk, xs):
    key = (op,) + tuple([x.ast.value for x in xs])
    r = _memo.get(key)
    if r is None:
        arr = (_core.Ast * len(xs))()
        for i, x in enumerate(xs):
            arr[i] = x.as_ast()
        r = _remember(key, z3.BoolRef(mk(_ref, len(xs), arr), _ctx))
    return r


# ---- booleans (python bool or z3 BoolRef), folded eagerly -------------------

def is_true(b):
    return b is True


def is_false(b):
    return b is False


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _nary('and', _core.Z3_mk_and, out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _nary('or', _core.Z3_mk_or, out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    key = ('not', x.ast.value)
    r = _memo.get(key)
    if r is None:
        r = _remember(key, z3.BoolRef(_core.Z3_mk_not(_ref, x.as_ast()), _ctx))
        _remember(('not', r.ast.value), x)
    return r


def Implies(a, b):
    return Or(Not(a), b)


def BEq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def BIte(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not(c)
    return Or(And(c, a), And(Not(c), b))


def Ite(c, a, b):
    """integer if-then-else"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
    elif not isinstance(a, int) and not isinstance(b, int) and a.ast.value == b.ast.value:
        return a
    key = ('ite', c.ast.value, a if isinstance(a, int) else ('t', a.ast.value), b if isinstance(b, int) else ('t', b.ast.value))
    r = _memo.get(key)
    return r if r is not None else _remember(key, z3.If(c, a, b))


def _num(x):
    return isinstance(x, int)


def Add(a, b):
    if _num(a) and a == 0:
        return b
    if _num(b) and b == 0:
        return a
    if _num(a) and _num(b):
        return a + b
    return _binary('add', a, b)


def _binary(op, a, b):
    key = (op, a if isinstance(a, int) else ('t', a.ast.value), b if isinstance(b, int) else ('t', b.ast.value))
    r = _memo.get(key)
    if r is None:
        r = _remember(key, a + b if op == 'add' else a == b)
    return r


def Sum(xs):
    r = 0
    for x in xs:
        r = Add(r, x)
    return r


def Eq(a, b):
    if _num(a) and _num(b):
        return a == b
    if not _num(a) and not _num(b) and a.ast.value == b.ast.value:
        return True
    return _binary('eq', a, b)


def Lt(a, b):
    return a < b


def Le(a, b):
    return a <= b


def b2i(b):
    if b is True:
        return 1
    if b is False:
        return 0
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


# ---- SQL values --------------------------------------------------------------

class SVal(object):
    """kind: 'int', 'text' (compared under the default collation), 'ci' (ignoring case), 'bin' or 'json' (no equality)."""
    __slots__ = ('null', 'v', 'kind')

    def __init__(self, null, v, kind='int'):
        self.null = null
        self.v = v
        self.kind = kind

    def __repr__(self):
        return 'SVal(%r,%r)' % (self.null, self.v)


NULL = SVal(True, 0)
TEXTS = ('text', 'bin', 'ci')


def const(v):
    if v is None:
        return NULL
    if isinstance(v, bool):
        return SVal(False, int(v))
    if isinstance(v, int):
        return SVal(False, v)
    if isinstance(v, str):
        return SVal(False, text_code(v), 'text')
    raise TypeError('no SQL constant for %r' % (v,))


def SIte(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return SVal(BIte(c, a.null, b.null), Ite(c, a.v, b.v), a.kind if a.null is not True else b.kind)


_fold = z3.Function('collation_fold', z3.IntSort(), z3.IntSort())


SYM_BASE = TEXT_BASE - 10 ** 6          # symbolic texts have codes SYM_BASE-1 .. SYM_BASE-SYM_N
SYM_N = 24


def fold(v):
    """case-insensitive collations: ids are fixed points, texts may coincide."""
    if _num(v):
        if v >= 0:
            return v
        t = text_of(v)
        return text_code(t.lower()) if t is not None else _fold(z3.IntVal(v))
    return z3.If(v >= 0, v, _fold(v))


def fold_facts():
    """what is known about the collation: constants fold to lower case, symbolic texts among themselves"""
    out = []
    for c in list(_texts_rev):
        out.append(_fold(z3.IntVal(c)) == fold(c))
    for i in range(1, SYM_N + 1):
        f = _fold(z3.IntVal(SYM_BASE - i))
        out.append(And(f <= SYM_BASE - 1, f >= SYM_BASE - SYM_N))
    return out


class Dialect(object):
    def __init__(self, name):
        self.name = name          # sqlite3 | postgresql | mysql


def raw_eq(a, b, dialect):
    """value equality of two non-NULL values, as a boolean"""
    if (dialect == 'mysql' and a.kind == 'text' and b.kind == 'text') or \
            ('ci' in (a.kind, b.kind) and 'bin' not in (a.kind, b.kind)):
        if not _num(a.v) and not _num(b.v) and a.v.eq(b.v):
            return True
        if _num(a.v) and _num(b.v) and a.v == b.v:
            return True
        return Eq(fold(a.v), fold(b.v))
    return Eq(a.v, b.v)


def not_distinct(a, b, dialect):
    """IS NOT DISTINCT FROM: two-valued"""
    return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), raw_eq(a, b, dialect)))


def same(a, b):
    """identity of stored values, no collation"""
    return Or(And(a.null, b.null), And(Not(a.null), Not(b.null), Eq(a.v, b.v)))


# three-valued truth: (isnull, istrue) with istrue meaningful when not isnull

class Tri(object):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t            # definitely true
        self.f = f            # definitely false


T = Tri(True, False)
F = Tri(False, True)
U = Tri(False, False)


def tri_bool(b):
    return Tri(b, Not(b))


def tri_and(a, b):
    return Tri(And(a.t, b.t), Or(a.f, b.f))


def tri_or(a, b):
    return Tri(Or(a.t, b.t), And(a.f, b.f))


def tri_not(a):
    return Tri(a.f, a.t)


def tri_null(null, t):
    return Tri(And(Not(null), t), And(Not(null), Not(t)))


def tri_to_val(a):
    return SVal(Not(Or(a.t, a.f)), b2i(a.t))


# texts that cases mention: same code in every process
for _t in ['', 'a', 'A'] + ['key%d' % _i for _i in range(1, 10)]:
    text_code(_t)
