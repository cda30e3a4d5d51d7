"""A bounded relational database whose rows and values are z3 terms.

A table is a list of slots; a slot is (guard, columns) where the guard says under
which conditions the row exists.  Statements and the trigger programs they fire are
executed once, for all values of the symbolic variables, by guarding every effect
(no path splitting inside the database).  Dialect rules that matter to trigger
programs are followed: when row triggers run, recursion, NULL-safe comparison
operators, identifier folding, strict typing (PostgreSQL), error 1442 (MySQL).
"""
import datetime
import re

from .terms import (z3, And, Or, Not, Eq, Ite, SIte, SVal, NULL, TEXTS, BIte, Tri, T, F, U, Sum, b2i, const, not_distinct,
                    raw_eq, same, tri_and, tri_bool, tri_not, tri_null, tri_or, tri_to_val, text_of, _num)
from . import sqlparser
from .sqlparser import SqlError


class Unsupported(BaseException):
    """The model cannot represent what the code did: the run is inconclusive, never a pass."""


class DbError(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


def dated(x, y):
    """the text of a date means that date where it is compared with one"""
    if x.kind == 'text' and _num(x.v) and y.kind == 'int':
        m = re.match(r'(\d{4})-(\d\d)-(\d\d)$', text_of(x.v) or '')
        if m:
            return SVal(x.null, (datetime.date(*map(int, m.groups())) - datetime.date(2000, 1, 1)).days)
    return x


class Column(object):
    def __init__(self, name, kind='int', null=False, nonneg=False, payload=False, lo=None, hi=None, boolean=False):
        self.name = name
        self.kind = kind
        self.null = null
        self.nonneg = nonneg
        self.payload = payload
        self.lo = lo
        self.hi = hi
        self.boolean = boolean


class Table(object):
    def __init__(self, name, columns, pk, fks=None, auto=True, uniques=()):
        self.name = name
        self.columns = dict((c.name, c) for c in columns)
        self.pk = pk
        self.fks = fks or {}       # column -> (table, column)
        self.auto = auto
        self.uniques = list(uniques)


class Row(object):
    __slots__ = ('guard', 'cols')

    def __init__(self, guard, cols):
        self.guard = guard
        self.cols = cols

    def __getitem__(self, c):
        return self.cols[c]


class TriggerDef(object):
    def __init__(self, name, time, event, table, when, prog, params, seq, sql):
        self.name = name
        self.time = time
        self.event = event
        self.table = table
        self.when = when
        self.prog = prog
        self.params = params
        self.seq = seq
        self.sql = sql


class Scope(object):
    """name resolution: NEW/OLD records, table aliases (innermost first)"""

    def __init__(self, params=None, new=None, old=None, parent=None, trigger_table=None):
        self.params = params if params is not None else (parent.params if parent else [])
        self.new = new if new is not None else (parent.new if parent else None)
        self.old = old if old is not None else (parent.old if parent else None)
        self.in_trigger = (trigger_table is not None) or (parent.in_trigger if parent else False)
        self.tables = []          # (alias, {col: SVal}, Table or None)
        self.parent = parent
        self.guard = True
        self.agg = None


PG_MAX_DEPTH = 6


def reads_columns(e):
    """does the expression mention columns other than those of NEW and OLD?"""
    if not isinstance(e, (tuple, list)):
        return any(reads_columns(x) for x in vars(e).values()) if hasattr(e, '__dict__') else False
    if e and e[0] == 'col' and len(e) == 3:
        return e[1] is None or str(getattr(e[1], 'name', e[1])).upper() not in ('NEW', 'OLD')
    return any(reads_columns(x) for x in e)


class Database(object):
    def __init__(self, dialect):
        self.dialect = dialect
        self.tables = {}
        self.data = {}
        self.triggers = []
        self.functions = {}
        self.next_id = {}
        self.errors = []           # [(kind, guard, msg)] of the running statement
        self.assumptions = []      # facts about fresh symbols (random draws)
        self.draws = []            # (const, 'int'|'real')
        self.once = {}             # random subqueries of the running statement that do not look at its rows
        self.fresh_n = 0
        self.seq = 0
        self.stack = []            # active trigger programs: (trigger name, tables in use)
        self.in_use = []
        self.parse_cache = {}
        self.log = []
        self.depth_guard = False
        self.stats = {'statements': 0, 'trigger_bodies': 0}
        self.deferred_fk = dialect in ('sqlite3', 'postgresql')
        self.fired = []

    # ---- schema / state -------------------------------------------------------
    def add_table(self, table):
        self.tables[table.name] = table
        self.data[table.name] = []
        self.next_id[table.name] = 1001

    def snapshot(self):
        return dict((t, list(rows)) for t, rows in self.data.items() if t in self.tables)

    def restore(self, snap):
        self.data = dict((t, list(rows)) for t, rows in snap.items())

    def catalogue_state(self):
        return list(self.triggers), dict(self.functions)

    def set_catalogue(self, state):
        self.triggers, self.functions = list(state[0]), dict(state[1])

    def merge(self, cond, a, b):
        """state a where cond holds, else b; b extends a's slot lists"""
        out = {}
        for t, rows_b in b.items():
            rows_a = a[t]
            res = []
            for i, rb in enumerate(rows_b):
                if i < len(rows_a):
                    ra = rows_a[i]
                    if ra is rb:
                        res.append(rb)
                        continue
                    res.append(Row(BIte(cond, ra.guard, rb.guard),
                                   dict((c, SIte(cond, ra.cols[c], rb.cols[c])) for c in rb.cols)))
                else:
                    res.append(Row(And(Not(cond), rb.guard), rb.cols))
            out[t] = res
        return out

    def fresh(self, prefix, sort='int'):
        self.fresh_n += 1
        name = '%s!%d' % (prefix, self.fresh_n)
        return z3.Int(name) if sort == 'int' else z3.Real(name)

    def error(self, kind, guard, msg):
        if guard is not False:
            self.errors.append((kind, guard, msg))

    # ---- names ----------------------------------------------------------------
    def find_table(self, ident):
        d = self.dialect
        if d == 'postgresql':
            n = ident.name if ident.quoted else ident.name.lower()
            t = self.tables.get(n)
        elif d == 'mysql':
            t = self.tables.get(ident.name)
        else:
            t = self.tables.get(ident.name)
            if t is None:
                low = ident.name.lower()
                t = next((x for x in self.tables.values() if x.name.lower() == low), None)
        if t is None:
            t = self.catalogue(ident.name.lower())
        if t is None:
            raise DbError('undefined', 'no such table: %s' % ident.name)
        return t

    def catalogue(self, name):
        """system catalogues, filled from the current trigger and table lists"""
        if self.dialect == 'sqlite3' and name in ('sqlite_master', 'sqlite_schema'):
            cols = ('type', 'name', 'tbl_name', 'sql')
            rows = [('table', t, t, '') for t in self.tables if not t.startswith(('sqlite_', 'pg_'))]
            rows += [('trigger', t.name, t.table, '') for t in self.triggers]
        elif self.dialect == 'postgresql' and name == 'pg_trigger':
            oids = sorted(t for t in self.tables if not t.startswith('pg_'))
            cols = ('tgname', 'tgrelid', 'tgisinternal', 'oid', 'tgfoid')
            fns = sorted(self.functions)
            rows = [(t.name, oids.index(t.table) + 1, 0, 500 + i, fns.index(t.prog[1]) + 900)
                    for i, t in enumerate(self.triggers)]
        elif self.dialect == 'postgresql' and name == 'pg_class':
            oids = sorted(t for t in self.tables if not t.startswith('pg_'))
            cols = ('relname', 'oid', 'relkind')
            rows = [(t, i + 1, 'r') for i, t in enumerate(oids)]
        elif self.dialect == 'postgresql' and name == 'pg_proc':
            cols = ('proname', 'oid')
            rows = [(f, 900 + i) for i, f in enumerate(sorted(self.functions))]
        elif self.dialect == 'postgresql' and name == 'pg_language':
            cols = ('lanname', 'oid')
            rows = [('plpgsql', 1)]
        else:
            return None
        t = Table(name, [Column(c, 'text' if rows and isinstance(rows[0][i], str) else 'int', null=True)
                         for i, c in enumerate(cols)], cols[0])
        from .names import name_val
        self.data[name] = [Row(True, dict((c, name_val(v) if isinstance(v, str) else const(v)) for c, v in zip(cols, r)))
                           for r in rows]
        return t

    def find_col(self, cols, ident):
        """column key matching an identifier, or None"""
        if self.dialect == 'postgresql':
            n = ident.name if ident.quoted else ident.name.lower()
            return n if n in cols else None
        if ident.name in cols:
            return ident.name
        low = ident.name.lower()
        for c in cols:
            if c.lower() == low:
                return c
        return None

    def same_name(self, a, b):
        if self.dialect == 'postgresql':
            x = a.name if a.quoted else a.name.lower()
            y = b.name if b.quoted else b.name.lower()
            return x == y
        return a.name.lower() == b.name.lower()

    def resolve(self, scope, qual, ident):
        if qual is not None:
            q = qual.name.upper()
            if q in ('NEW', 'OLD') and (scope.new is not None or scope.old is not None) and \
                    not (qual.quoted and self.dialect == 'postgresql' and qual.name != qual.name.lower()):
                rec, other = (scope.new, scope.old) if q == 'NEW' else (scope.old, scope.new)
                if rec is None and self.dialect == 'postgresql':
                    # a record full of NULLs since version 11
                    rec = dict((c, SVal(True, 0, v.kind)) for c, v in other.items())
                if rec is None:
                    raise DbError('undefined', 'record %s is not available in this trigger' % q)
                c = self.find_col(rec, ident)
                if c is None:
                    raise DbError('undefined', 'no such column: %s.%s' % (q, ident.name))
                return rec[c]
            s = scope
            while s is not None:
                for alias, cols, tab in s.tables:
                    if self.same_name(alias, qual):
                        c = self.find_col(cols, ident)
                        if c is None:
                            raise DbError('undefined', 'no such column: %s.%s' % (qual.name, ident.name))
                        return cols[c]
                s = s.parent
            raise DbError('undefined', 'no such table or alias: %s' % qual.name)
        s = scope
        while s is not None:
            hits = []
            for alias, cols, tab in s.tables:
                c = self.find_col(cols, ident)
                if c is not None:
                    hits.append(cols[c])
            if len(hits) > 1:
                raise DbError('undefined', 'ambiguous column name: %s' % ident.name)
            if hits:
                return hits[0]
            s = s.parent
        if self.dialect == 'sqlite3' and ident.quoted:
            return const(ident.name)
        raise DbError('undefined', 'no such column: %s' % ident.name)

    # ---- expressions ------------------------------------------------------------
    def truth(self, e, scope):
        """expression as a three-valued condition"""
        k = e[0]
        if k == 'bin' and e[1] == 'and':
            return tri_and(self.truth(e[2], scope), self.truth(e[3], scope))
        if k == 'bin' and e[1] == 'or':
            return tri_or(self.truth(e[2], scope), self.truth(e[3], scope))
        if k == 'un' and e[1] == 'not':
            return tri_not(self.truth(e[2], scope))
        if k == 'bool':
            return T if e[1] else F
        if k == 'bin' and e[1] in ('=', '<>', '<', '<=', '>', '>='):
            if e[2][0] == 'row':
                if e[3][0] != 'row' or e[1] not in ('=', '<>'):
                    raise Unsupported('row comparison')
                r = T
                for x, y in zip(e[2][1], e[3][1]):
                    r = tri_and(r, self.compare('=', self.value(x, scope), self.value(y, scope)))
                return r if e[1] == '=' else tri_not(r)
            return self.compare(e[1], self.value(e[2], scope), self.value(e[3], scope), e[2], e[3])
        if k == 'bin' and e[1] == '<=>':
            if self.dialect != 'mysql':
                raise DbError('syntax', 'operator <=>')
            return tri_bool(not_distinct(self.value(e[2], scope), self.value(e[3], scope), self.dialect))
        if k == 'distinct':
            same_ = not_distinct(self.typed(self.value(e[1], scope), self.value(e[2], scope), e[1], e[2])[0],
                                 self.value(e[2], scope), self.dialect)
            return tri_bool(same_ if e[3] else Not(same_))
        if k == 'isnull':
            v = self.value(e[1], scope)
            return tri_bool(Not(v.null) if e[2] else v.null)
        if k == 'istruth':
            t = self.truth(e[1], scope)
            b = {'true': t.t, 'false': t.f, 'unknown': Not(Or(t.t, t.f))}[e[2]]
            return tri_bool(Not(b) if e[3] else b)
        if k == 'in':
            a = self.value(e[1], scope)
            r = F
            for it in e[2]:
                r = tri_or(r, self.compare('=', a, self.value(it, scope), e[1], it))
            return tri_not(r) if e[3] else r
        if k == 'insel':
            a = self.value(e[1], scope)
            r = F
            cols, rows = self.select(e[2], scope)
            if len(cols) != 1:
                raise DbError('syntax', 'subquery has too many columns')
            for g, vals in rows:
                c = self.compare('=', a, vals[0])
                r = tri_or(r, Tri(And(g, c.t), Or(Not(g), c.f)))
            return tri_not(r) if e[3] else r
        if k == 'exists':
            cols, rows = self.select(e[1], scope)
            return tri_bool(Or(*[g for g, _ in rows]))
        if k == 'between':
            a = self.value(e[1], scope)
            r = tri_and(self.compare('>=', a, self.value(e[2], scope)), self.compare('<=', a, self.value(e[3], scope)))
            return tri_not(r) if e[4] else r
        if k == 'like':
            return self.like(e, scope)
        v = self.value(e, scope)
        return tri_null(v.null, Not(Eq(v.v, 0)))

    def like(self, e, scope):
        a = self.value(e[2], scope)
        b = self.value(e[3], scope)
        from .terms import text_of
        if a.null is True or b.null is True:
            return tri_null(True, False)
        if _num(a.v) and _num(b.v) and a.null is False and b.null is False:
            import re
            pat = text_of(b.v)
            esc = None
            if e[5] is not None:
                esc = text_of(self.value(e[5], scope).v)
            elif self.dialect != 'sqlite3':
                esc = '\\'
            out = ''
            i = 0
            while i < len(pat):
                ch = pat[i]
                if esc and ch == esc and i + 1 < len(pat):
                    i += 1
                    out += re.escape(pat[i])
                elif ch == '%':
                    out += '.*'
                elif ch == '_':
                    out += '.'
                else:
                    out += re.escape(ch)
                i += 1
            flags = re.S
            if e[1] in ('ilike',) or (e[1] == 'like' and self.dialect != 'postgresql'):
                flags |= re.I
            m = re.match('(?:' + out + r')\Z', text_of(a.v), flags) is not None
            return tri_bool(not m if e[4] else m)
        if a.kind == 'str' and _num(b.v):
            from . import names
            esc = text_of(self.value(e[5], scope).v) if e[5] is not None else None if self.dialect == 'sqlite3' else '\\'
            if e[1] not in ('like', 'ilike'):
                raise Unsupported('%s on a name' % e[1])
            fold = e[1] == 'ilike' or self.dialect != 'postgresql'
            m = z3.InRe(a.v, names.like_re(text_of(b.v), esc, fold))
            return tri_bool(Not(m) if e[4] else m)
        raise Unsupported('LIKE on symbolic text %r %r %r %r' % (a.kind, a.v, b.kind, b.v))

    def typed(self, a, b, ea=None, eb=None):
        """PostgreSQL refuses text/integer comparison; literals and parameters adapt"""
        if self.dialect == 'postgresql' and ea is not None and eb is not None:
            lit = ('str', 'param', 'null')
            if ea[0] not in lit and eb[0] not in lit:
                ka = 'text' if a.kind in TEXTS else a.kind if a.kind == 'json' else 'int'
                kb = 'text' if b.kind in TEXTS else b.kind if b.kind == 'json' else 'int'
                if ka != kb:
                    raise DbError('type', 'operator does not exist: %s vs %s' % (a.kind, b.kind))
            if 'json' in (a.kind, b.kind):
                raise DbError('type', 'could not identify an equality operator for type json')
        return a, b

    def compare(self, op, a, b, ea=None, eb=None):
        if a.kind == 'str' or b.kind == 'str':
            from . import names
            same_ = names.seq(a) == names.seq(b)
            if op not in ('=', '<>'):
                raise Unsupported('order of names')
            return tri_bool(same_ if op == '=' else Not(same_))
        self.typed(a, b, ea, eb)
        a, b = dated(a, b), dated(b, a)
        null = Or(a.null, b.null)
        if op == '=':
            return tri_null(null, raw_eq(a, b, self.dialect))
        if op == '<>':
            return tri_null(null, Not(raw_eq(a, b, self.dialect)))
        if (a.kind in TEXTS or b.kind in TEXTS) and not (_num(a.v) and _num(b.v)):
            # order of texts is not modelled; only sound where the outcome does not matter
            raise Unsupported('ordering of symbolic text')
        if op == '<':
            return tri_null(null, a.v < b.v)
        if op == '<=':
            return tri_null(null, a.v <= b.v)
        if op == '>':
            return tri_null(null, a.v > b.v)
        return tri_null(null, a.v >= b.v)

    def value(self, e, scope):
        k = e[0]
        if k == 'num':
            if isinstance(e[1], float):
                return SVal(False, z3.RealVal(repr(e[1])), 'real')
            return SVal(False, e[1])
        if k == 'str':
            return const(e[1])
        if k == 'null':
            return NULL
        if k == 'param':
            try:
                return scope.params[e[1]]
            except IndexError:
                raise DbError('params', 'not enough parameters')
        if k == 'col':
            return self.resolve(scope, e[1], e[2])
        if k == 'bin' and e[1] in ('+', '-', '*', '/', '%'):
            return self.arith(e[1], self.value(e[2], scope), self.value(e[3], scope))
        if k == 'un' and e[1] == '-':
            a = self.value(e[2], scope)
            return SVal(a.null, -a.v, a.kind)
        if k == 'sub':
            if id(e) in self.once:
                return self.once[id(e)]
            drawn = len(self.draws)
            cols, rows = self.select(e[1], scope)
            if len(cols) != 1:
                raise DbError('syntax', 'scalar subquery with several columns')
            r = NULL
            seen = False
            for g, vals in reversed(rows):
                r = SIte(g, vals[0], r)
            for i, (g, _) in enumerate(rows):
                for h, _v in rows[:i]:
                    if self.dialect != 'sqlite3':
                        self.error('cardinality', And(scope.guard, g, h), 'scalar subquery returned more than one row')
            if len(self.draws) > drawn and self.dialect != 'mysql' and not reads_columns(e[1]):
                # evaluated once for all rows
                self.once[id(e)] = r
            return r
        if k == 'case':
            els = self.value(e[3], scope) if e[3] is not None else NULL
            r = els
            operand = self.value(e[1], scope) if e[1] is not None else None
            for c, v in reversed(e[2]):
                if operand is not None:
                    cond = self.compare('=', operand, self.value(c, scope)).t
                else:
                    cond = self.truth(c, scope).t
                r = SIte(cond, self.value(v, scope), r)
            return r
        if k == 'cast':
            a = self.value(e[1], scope)
            ty = e[2]
            if any(w in ty for w in ('int', 'serial', 'signed')):
                return self.to_int(a)
            if ty == 'binary':
                return SVal(a.null, a.v, 'bin')
            if 'char' in ty or 'text' in ty:
                return SVal(a.null, a.v, 'text')
            return a
        if k == 'collate':
            a = self.value(e[1], scope)
            if e[2].lower().endswith('_bin') or e[2].lower() in ('binary', 'c'):
                return SVal(a.null, a.v, 'bin')
            return a
        if k == 'func':
            return self.func(e, scope)
        if k in ('bool',):
            return SVal(False, 1 if e[1] else 0)
        if k == 'sysvar':
            return SVal(False, 0)
        if k == 'bin' and e[1] == '||':
            raise Unsupported('string concatenation in SQL')
        return tri_to_val(self.truth(e, scope))

    def to_int(self, a):
        if a.kind == 'real':
            return SVal(a.null, z3.ToInt(a.v + z3.RealVal('1/2')))
        return SVal(a.null, a.v)

    def arith(self, op, a, b):
        null = Or(a.null, b.null)
        real = a.kind == 'real' or b.kind == 'real'
        x, y = a.v, b.v
        if real:
            x = z3.ToReal(x) if (not _num(x) and z3.is_int(x)) else (z3.RealVal(x) if _num(x) else x)
            y = z3.ToReal(y) if (not _num(y) and z3.is_int(y)) else (z3.RealVal(y) if _num(y) else y)
        kind = 'real' if real else 'int'
        if op == '+':
            return SVal(null, x + y, kind)
        if op == '-':
            return SVal(null, x - y, kind)
        if op == '*':
            if not (_num(x) or _num(y) or z3.is_rational_value(x) or z3.is_rational_value(y)):
                f = z3.Function('product_real' if real else 'product', *([z3.RealSort() if real else z3.IntSort()] * 3))
                return SVal(null, f(x, y), kind)
            return SVal(null, x * y, kind)
        if op == '%':
            if _num(x) and _num(y) and y:
                return SVal(null, x % y, kind)
            if _num(y) and y:
                # remainder takes the sign of the dividend
                m = z3.If(x >= 0, x % abs(y), -((-x) % abs(y)))
                return SVal(null, m, kind)
        if op == '/' and real:
            return SVal(null, x / y, kind)
        raise Unsupported('arithmetic %s' % op)

    def func(self, e, scope):
        name, args, star, distinct = e[1], e[2], e[3], e[4]
        if name in ('count', 'sum', 'max', 'min', 'avg'):
            if scope.agg is None:
                raise DbError('syntax', 'misuse of aggregate %s()' % name)
            return self.aggregate(name, args, star, distinct, scope)
        if name in ('coalesce', 'ifnull'):
            r = NULL
            for a in reversed([self.value(x, scope) for x in args]):
                r = SIte(Not(a.null), a, r)
            return r
        if name in ('left', 'substr', 'substring', 'starts_with') and args and self.value(args[0], scope).kind in ('text', 'str'):
            return self.name_func(name, [self.value(x, scope) for x in args])
        if name == 'nullif':
            a, b = [self.value(x, scope) for x in args]
            return SIte(self.compare('=', a, b).t, NULL, a)
        if name in ('abs',):
            a = self.value(args[0], scope)
            return SVal(a.null, z3.If(a.v >= 0, a.v, -a.v) if not _num(a.v) else abs(a.v), a.kind)
        if name in ('round', 'floor', 'ceil'):
            a = self.value(args[0], scope)
            if a.kind != 'real':
                return a
            if name == 'floor':
                return SVal(a.null, z3.ToInt(a.v))
            return self.to_int(a)
        if name in ('greatest', 'max2'):
            vals = [self.value(x, scope) for x in args]
            r = vals[0]
            for v in vals[1:]:
                r = SVal(Or(r.null, v.null), Ite(v.v > r.v, v.v, r.v), r.kind)
            return r
        if name in ('if', 'iif'):
            c = self.truth(args[0], scope).t
            return SIte(c, self.value(args[1], scope), self.value(args[2], scope))
        if name in ('random', 'rand'):
            if args and name == 'random':
                raise DbError('undefined', 'wrong number of arguments: %s' % name)
            if self.dialect == 'sqlite3':
                if name != 'random':
                    raise DbError('undefined', 'no such function: %s' % name)
                c = self.fresh('random')
                self.assumptions.append(z3.And(c >= -2 ** 63, c <= 2 ** 63 - 1))
                self.draws.append((c, 'int'))
                return SVal(False, c)
            if (self.dialect == 'mysql') != (name == 'rand'):
                raise DbError('undefined', 'no such function: %s' % name)
            if args:
                # the same seed always gives the same numbers
                seeded = z3.Function('seeded', z3.IntSort(), z3.RealSort())
                seed = self.to_int(self.value(args[0], scope))
                c = seeded(seed.v)
                self.assumptions.append(z3.And(c >= 0, c < 1))
                return SVal(False, c, 'real')
            c = self.fresh('random', 'real')
            self.assumptions.append(z3.And(c >= 0, c < 1))
            self.draws.append((c, 'real'))
            return SVal(False, c, 'real')
        if name == 'version':
            return const('symbolic')
        if name == 'last_insert_rowid':
            raise Unsupported('last_insert_rowid')
        raise DbError('undefined', 'no such function: %s' % name)

    def name_func(self, name, vals):
        """prefixes of names"""
        from . import names
        s = names.seq(vals[0])
        if name == 'starts_with':
            return SVal(False, z3.If(z3.PrefixOf(names.seq(vals[1]), s), 1, 0))
        n = [v.v for v in vals[1:]]
        if not all(_num(x) for x in n):
            raise Unsupported(name)
        r = z3.SubString(s, 0, n[0]) if name == 'left' else z3.SubString(s, n[0] - 1, n[1] if len(n) > 1 else z3.Length(s))
        r = z3.simplify(r)
        return const(r.as_string()) if z3.is_string_value(r) else SVal(False, r, 'str')

    def aggregate(self, name, args, star, distinct, scope):
        rows = scope.agg
        if name == 'count' and star:
            return SVal(False, Sum([b2i(g) for g, _ in rows]))
        vals = []
        for g, tabs in rows:
            s = Scope(parent=scope)
            s.tables = tabs
            s.guard = And(scope.guard, g)
            v = self.value(args[0], s)
            vals.append((And(g, Not(v.null)), v))
        if distinct:
            vals = [(And(g, *[Not(And(h, raw_eq(v, w, self.dialect))) for h, w in vals[:i]]), v)
                    for i, (g, v) in enumerate(vals)]
        if name == 'count':
            return SVal(False, Sum([b2i(g) for g, _ in vals]))
        none = Not(Or(*[g for g, _ in vals]))
        if name == 'sum':
            return SVal(none, Sum([Ite(g, v.v, 0) for g, v in vals]))
        if name in ('max', 'min'):
            r = NULL
            for g, v in vals:
                better = Or(r.null, (v.v > r.v) if name == 'max' else (v.v < r.v))
                r = SIte(And(g, better), SVal(False, v.v, v.kind), r)
            return r
        raise Unsupported('aggregate %s' % name)

    # ---- select -------------------------------------------------------------------
    def from_rows(self, frm, scope):
        """-> [(guard, [(alias, cols, table)])]"""
        out = [(True, [])]
        for src, alias, jt, on in frm:
            if src[0] == 'table':
                tab = self.find_table(src[1])
                self.use_table(tab.name, False)
                al = alias or src[1]
                cand = [(r.guard, r.cols) for r in self.data[tab.name] if r.guard is not False]
                nullrow = dict((c, SVal(True, 0, tab.columns[c].kind)) for c in tab.columns)
            else:
                tab = None
                al = alias
                names, rows = self.select(src[1], scope)
                cand = [(g, dict(zip(names, vals))) for g, vals in rows]
                nullrow = dict((n, NULL) for n in names)
            new = []
            for g, tabs in out:
                matched = []
                for cg, cols in cand:
                    t2 = tabs + [(al, cols, tab)]
                    c = True
                    if on is not None:
                        s = Scope(parent=scope)
                        s.tables = t2
                        s.guard = And(scope.guard, g, cg)
                        c = self.truth(on, s).t
                    gg = And(g, cg, c)
                    if gg is not False:
                        new.append((gg, t2))
                        matched.append(And(cg, c))
                if jt == 'left':
                    gg = And(g, Not(Or(*matched)))
                    if gg is not False:
                        new.append((gg, tabs + [(al, nullrow, tab)]))
                if not cand and on is not None:
                    # names still have to resolve
                    s = Scope(parent=scope)
                    s.tables = tabs + [(al, nullrow, tab)]
                    s.guard = False
                    self.truth(on, s)
            out = new
        return out

    def has_agg(self, e):
        if not isinstance(e, tuple):
            return False
        if e[0] == 'func' and e[1] in ('count', 'sum', 'max', 'min', 'avg'):
            return True
        if e[0] in ('sub', 'exists', 'insel'):
            return False
        return any(self.has_agg(x) for x in e[1:] if isinstance(x, tuple)) or \
            any(self.has_agg(y) for x in e[1:] if isinstance(x, list) for y in x if isinstance(y, tuple))

    def null_tables(self, frm):
        tabs = []
        for src, alias, jt, on in frm:
            if src[0] == 'table':
                tab = self.find_table(src[1])
                tabs.append((alias or src[1], dict((c, SVal(True, 0, tab.columns[c].kind)) for c in tab.columns), tab))
            else:
                tabs.append((alias, dict(('?', NULL) for n in ()), None))
        return tabs

    def item_name(self, e, alias, i):
        if alias is not None:
            return alias.name
        if e[0] == 'col':
            return e[2].name
        return 'column%d' % i

    def select(self, d, scope, top=False):
        """-> (column names, [(guard, [SVal])])"""
        rows = self.from_rows(d['frm'], scope) if d['frm'] else [(True, [])]
        kept = []
        for g, tabs in rows:
            s = Scope(parent=scope)
            s.tables = tabs
            s.guard = And(scope.guard, g)
            if d['where'] is not None:
                g = And(g, self.truth(d['where'], s).t)
            if g is not False:
                kept.append((g, tabs, s))
        if not rows and d['where'] is not None and all(f[0][0] == 'table' for f in d['frm']):
            s = Scope(parent=scope)
            s.tables = self.null_tables(d['frm'])
            s.guard = False
            self.truth(d['where'], s)
        if d['group'] is not None or d['having'] is not None:
            return self.grouped(d, kept, scope)
        names = None
        if any(self.has_agg(e) for e, _ in d['items']):
            s = Scope(parent=scope)
            s.guard = scope.guard
            s.agg = [(g, tabs) for g, tabs, _ in kept]
            names = [self.item_name(e, a, i) for i, (e, a) in enumerate(d['items'])]
            return names, [(True, [self.value(e, s) for e, _ in d['items']])]
        out = []
        keys = []
        for g, tabs, s in kept:
            vals = []
            names = []
            for i, (e, a) in enumerate(d['items']):
                if e[0] == 'star':
                    for al, cols, tab in tabs:
                        if e[1] is None or self.same_name(al, e[1]):
                            for c, v in cols.items():
                                vals.append(v)
                                names.append(c)
                else:
                    vals.append(self.value(e, s))
                    names.append(self.item_name(e, a, i))
            out.append((g, vals))
            keys.append(s)
        if names is None:
            names = []
            for i, (e, a) in enumerate(d['items']):
                if e[0] == 'star':
                    for src, al, jt, on in d['frm']:
                        if src[0] == 'table':
                            names.extend(self.find_table(src[1]).columns)
                else:
                    names.append(self.item_name(e, a, i))
            if not rows and all(f[0][0] == 'table' for f in d['frm']):
                s = Scope(parent=scope)
                s.tables = self.null_tables(d['frm'])
                s.guard = False
                for e, a in d['items']:
                    if e[0] != 'star':
                        self.value(e, s)
        if d['on'] is not None:
            ks = [[self.value(k, s) for k in d['on']] for s in keys]
            res = []
            for i, (g, vals) in enumerate(out):
                dup = Or(*[And(out[j][0], *[not_distinct(x, y, self.dialect) for x, y in zip(ks[i], ks[j])])
                           for j in range(i)])
                res.append((And(g, Not(dup)), vals))
            out = res
        elif d['distinct']:
            res = []
            for i, (g, vals) in enumerate(out):
                dup = Or(*[And(out[j][0], *[not_distinct(x, y, self.dialect) for x, y in zip(vals, out[j][1])])
                           for j in range(i)])
                res.append((And(g, Not(dup)), vals))
            out = res
        if (d['order'] or d['limit'] is not None or d['offset'] is not None):
            okeys = []
            if d['order']:
                for s, (g, vals) in zip(keys, out):
                    ok = []
                    for e, desc in d['order']:
                        if e[0] == 'num':
                            ok.append((vals[e[1] - 1], desc))
                        else:
                            try:
                                ok.append((self.value(e, s), desc))
                            except DbError:
                                if e[0] == 'col' and e[2].name in names:
                                    ok.append((vals[names.index(e[2].name)], desc))
                                else:
                                    raise
                    okeys.append(ok)
            lim = self.const_int(d['limit'], scope)
            off = self.const_int(d['offset'], scope)
            if not okeys and d['on'] is not None:
                okeys = [[(k, False) for k in kk] for kk in ks]
            if top:
                self.top_order = (okeys or None, lim, off)
            else:
                if lim is not None or off:
                    out = self.limited(out, okeys, lim, off or 0)
        elif top:
            # PostgreSQL sorts for DISTINCT ON
            self.top_order = ([[(k, False) for k in kk] for kk in ks] if d['on'] is not None else None, None, None)
        return names, out

    def const_int(self, e, scope):
        if e is None:
            return None
        v = self.value(e, scope)
        if v.null is True:
            return None
        if not _num(v.v):
            raise Unsupported('symbolic LIMIT')
        return v.v

    def limited(self, out, okeys, lim, off):
        """keep row i if the number of existing rows ranked before it is in [off, off+lim)"""
        res = []
        for i, (g, vals) in enumerate(out):
            ranks = []
            for j, (h, w) in enumerate(out):
                if i == j:
                    continue
                if okeys:
                    before = j < i
                    for (x, desc), (y, _) in reversed(list(zip(okeys[j], okeys[i]))):
                        lt = (x.v > y.v) if desc else (x.v < y.v)
                        eq = same(x, y)
                        before = Or(lt, And(eq, before))
                else:
                    before = j < i
                ranks.append(b2i(And(h, before)))
            n = Sum(ranks)
            c = True
            if off:
                c = And(c, n >= off)
            if lim is not None:
                c = And(c, n < off + lim)
            res.append((And(g, c), vals))
        return res

    def grouped(self, d, kept, scope):
        if d['group'] is None:
            raise Unsupported('HAVING without GROUP BY')
        ks = [[self.value(k, s) for k in d['group']] for g, tabs, s in kept]
        out = []
        names = [self.item_name(e, a, i) for i, (e, a) in enumerate(d['items'])]
        for i, (g, tabs, s) in enumerate(kept):
            first = And(g, *[Not(And(kept[j][0], *[not_distinct(x, y, self.dialect) for x, y in zip(ks[i], ks[j])]))
                             for j in range(i)])
            if first is False:
                continue
            s2 = Scope(parent=scope)
            s2.tables = tabs
            s2.guard = And(scope.guard, first)
            s2.agg = [(And(kept[j][0], *[not_distinct(x, y, self.dialect) for x, y in zip(ks[i], ks[j])]), kept[j][1])
                      for j in range(len(kept))]
            if d['having'] is not None:
                first = And(first, self.truth(d['having'], s2).t)
            out.append((first, [self.value(e, s2) for e, _ in d['items']]))
        if d['order'] or d['limit'] is not None:
            self.top_order = (None, self.const_int(d['limit'], scope), self.const_int(d['offset'], scope))
        else:
            self.top_order = (None, None, None)
        return names, out

    # ---- writes -----------------------------------------------------------------
    def use_table(self, name, write):
        """MySQL: a trigger may not write a table the invoking statements use"""
        if self.in_use:
            self.in_use[-1].add(name)

    def check_1442(self, name, guard):
        if self.dialect == 'mysql' and self.stack:
            for used in self.in_use[:-1]:
                if name in used:
                    self.error('1442', guard, "Can't update table '%s' in stored function/trigger because it is "
                               "already used by statement which invoked this" % name)
                    return

    def column_value(self, col, v, guard, ignore=False):
        if col.kind == 'int':
            if v.kind == 'real':
                v = self.to_int(v)
            v = SVal(v.null, v.v, 'int')
        else:
            v = SVal(v.null, v.v, col.kind)
        if not col.null:
            if ignore and self.dialect == 'mysql':
                v = SIte(v.null, SVal(False, 0, col.kind), v)
            else:
                self.error('notnull', And(guard, v.null), 'NOT NULL constraint failed: %s' % col.name)
        if col.nonneg:
            self.error('check', And(guard, Not(v.null), v.v < 0), 'CHECK constraint failed: %s' % col.name)
        return v

    def apply_update(self, tname, changes, guard=True):
        """changes: [(slot index, cond, {col: SVal})]; fires triggers"""
        tab = self.tables[tname]
        fired = []
        after_all = self.dialect == 'postgresql'
        self.run_row_triggers_before(tab, 'update', changes)
        for i, cond, newvals in changes:
            row = self.data[tname][i]
            cond = And(guard, row.guard, cond)
            if cond is False:
                continue
            if callable(newvals):
                newvals = newvals(row, cond)
            vals = {}
            for c, v in newvals.items():
                vals[c] = self.column_value(tab.columns[c], v, cond)
            cols = dict(row.cols)
            new = dict(row.cols)
            for c, v in vals.items():
                new[c] = v
                cols[c] = SIte(cond, v, row.cols[c])
            self.data[tname][i] = Row(row.guard, cols)
            fired.append((cond, new, row.cols))
            if not after_all:
                self.fire(tab, 'update', cond, new, row.cols)
        if after_all:
            for cond, new, old in fired:
                self.fire(tab, 'update', cond, new, old)
        return Sum([b2i(c) for c, _, _ in fired])

    def run_row_triggers_before(self, tab, event, changes):
        if any(t.time == 'before' and t.event == event and t.table == tab.name for t in self.triggers):
            raise Unsupported('BEFORE triggers')

    def apply_delete(self, tname, conds, guard=True):
        tab = self.tables[tname]
        fired = []
        after_all = self.dialect == 'postgresql'
        self.run_row_triggers_before(tab, 'delete', conds)
        for i, cond in conds:
            row = self.data[tname][i]
            cond = And(guard, row.guard, cond)
            if cond is False:
                continue
            self.data[tname][i] = Row(And(row.guard, Not(cond)), row.cols)
            fired.append((cond, row.cols))
            if not after_all:
                self.fire(tab, 'delete', cond, None, row.cols)
        if after_all:
            for cond, old in fired:
                self.fire(tab, 'delete', cond, None, old)
        return Sum([b2i(c) for c, _ in fired])

    def apply_insert(self, tname, rows, guard=True, mode='plain'):
        """rows: [(cond, {col: SVal})]; missing pk is allocated"""
        tab = self.tables[tname]
        fired = []
        after_all = self.dialect == 'postgresql'
        self.run_row_triggers_before(tab, 'insert', rows)
        ids = []
        for cond, vals in rows:
            cond = And(guard, cond)
            if cond is False:
                continue
            cols = {}
            for c, col in tab.columns.items():
                if c in vals and not (c == tab.pk and vals[c].null is True and tab.auto):
                    cols[c] = self.column_value(col, vals[c], cond, mode == 'ignore')
                elif c == tab.pk and tab.auto:
                    cols[c] = SVal(False, self.next_id[tname], col.kind)
                    self.next_id[tname] += 1
                else:
                    cols[c] = self.column_value(col, SVal(True, 0, col.kind), cond, mode == 'ignore')
            ids.append(cols[tab.pk])
            for u in [(tab.pk,)] + [tuple(x) for x in tab.uniques]:
                for j, r in enumerate(self.data[tname]):
                    clash = And(cond, r.guard, *[And(Not(cols[c].null), Not(r.cols[c].null), Eq(cols[c].v, r.cols[c].v))
                                                 for c in u])
                    if clash is False:
                        continue
                    if mode == 'replace':
                        self.data[tname][j] = Row(And(r.guard, Not(clash)), r.cols)
                    elif mode == 'ignore':
                        cond = And(cond, Not(clash))
                    else:
                        self.error('unique', clash, 'UNIQUE constraint failed: %s.%s' % (tname, ','.join(u)))
            self.data[tname].append(Row(cond, cols))
            fired.append((cond, cols))
            if not after_all:
                self.fire(tab, 'insert', cond, cols, None)
        if after_all:
            for cond, cols in fired:
                self.fire(tab, 'insert', cond, cols, None)
        return ids

    # ---- foreign keys ------------------------------------------------------------
    def dangling(self, before, after):
        """condition under which the change leaves a foreign key without its target"""
        out = []
        gone = set()
        for t, rows in after.items():
            old = before.get(t, ())
            for i, r in enumerate(rows):
                if i < len(old) and old[i] is r:
                    continue
                if i < len(old) and old[i].guard is not False and (
                        r.guard is not old[i].guard or r.cols[self.tables[t].pk] is not old[i].cols[self.tables[t].pk]):
                    gone.add(t)
                for c, (tt, tc) in self.tables[t].fks.items():
                    out.append(self.dangles(after, r, c, tt, tc))
        for t, tab in self.tables.items():
            for c, (tt, tc) in tab.fks.items():
                if tt in gone:
                    out.extend(self.dangles(after, r, c, tt, tc) for r in after[t])
        return Or(*out)

    def dangles(self, data, r, c, target, tcol):
        if target not in data or target == 'django_content_type' or r.guard is False:
            return False
        v = r.cols[c]
        found = Or(*[And(p.guard, Not(p.cols[tcol].null), Eq(p.cols[tcol].v, v.v)) for p in data[target]])
        return And(r.guard, Not(v.null), Not(found))

    # ---- triggers ----------------------------------------------------------------
    def fire(self, tab, event, cond, new, old):
        if cond is False:
            return
        trigs = [t for t in self.triggers if t.table == tab.name and t.event == event and t.time == 'after']
        if self.dialect == 'postgresql':
            trigs.sort(key=lambda t: t.name)
        for t in trigs:
            if self.dialect == 'sqlite3' and t.name in self.stack:
                continue
            if len(self.stack) >= PG_MAX_DEPTH:
                self.error('depth', cond, 'trigger recursion deeper than %d' % PG_MAX_DEPTH)
                continue
            self.stats['trigger_bodies'] += 1
            scope = Scope(params=t.params, new=new, old=old, trigger_table=tab.name)
            scope.guard = cond
            self.stack.append(t.name)
            try:
                g = cond
                if t.when is not None:
                    try:
                        g = And(g, self.truth(t.when, scope).t)
                    except DbError as e:
                        self.error(e.kind, cond, e.msg)
                        continue
                self.run_prog(t.prog, g, scope)
            finally:
                self.stack.pop()

    def run_prog(self, prog, guard, scope):
        """executes a statement list/block; returns the guard under which control continues"""
        if guard is False:
            return False
        k = prog[0]
        if k == 'call':
            body = self.functions.get(prog[1])
            if body is None:
                self.error('undefined', guard, 'function %s does not exist' % (prog[1],))
                return False
            scope.params = body[1]
            return self.run_prog(body[0], guard, scope)
        if k == 'block':
            if prog[2]:
                before = self.snapshot()
                saved = self.errors
                self.errors = []
                g = self.run_list(prog[1], guard, scope)
                raised, self.errors = self.errors, saved
                caught = []
                for kind, eg, msg in raised:
                    if any(self.catches(n, kind) for names, _ in prog[2] for n in names):
                        caught.append(eg)
                    else:
                        self.errors.append((kind, eg, msg))
                c = Or(*caught)
                if c is not False:
                    after = self.data
                    self.data = self.merge(c, before, after)
                    g = And(g, Not(c))
                    hg = self.run_list(prog[2][0][1], And(guard, c), scope)
                    g = Or(g, hg)
                return g
            return self.run_list(prog[1], guard, scope)
        if k == 'if':
            rest = guard
            cont = False
            for c, body in prog[1]:
                scope.guard = rest
                try:
                    t = self.truth(c, scope).t
                except DbError as e:
                    self.error(e.kind, rest, e.msg)
                    return False
                cont = Or(cont, self.run_list(body, And(rest, t), scope))
                rest = And(rest, Not(t))
            cont = Or(cont, self.run_list(prog[2], rest, scope))
            return cont
        if k == 'return':
            return False
        if k == 'nop':
            return guard
        scope.guard = guard
        self.in_use.append(set())
        try:
            self.run_dml(prog, scope, guard)
        except DbError as e:
            self.error(e.kind, guard, e.msg)
        finally:
            self.in_use.pop()
        return guard

    def catches(self, name, kind):
        n = name.lower()
        if n == 'others':
            return True
        return (n, kind) in (('unique_violation', 'unique'), ('not_null_violation', 'notnull'),
                             ('check_violation', 'check'))

    def run_list(self, stmts, guard, scope):
        for s in stmts:
            guard = self.run_prog(s, guard, scope)
            if guard is False:
                return False
        return guard

    def run_dml(self, st, scope, guard):
        outer, self.once = self.once, {}
        try:
            return self.run_dml1(st, scope, guard)
        finally:
            self.once = outer

    def run_dml1(self, st, scope, guard):
        """INSERT/UPDATE/DELETE/SELECT under a guard"""
        k = st[0]
        if k == 'select':
            self.select(st[1], scope)
            return None
        if k == 'insert':
            _, mode, table, cols, src, returning = st
            tab = self.find_table(table)
            self.in_use[-1].add(tab.name)
            self.check_1442(tab.name, guard)
            names = list(tab.columns) if cols is None else [self.target_col(tab, c) for c in cols]
            rows = []
            if src[0] == 'values':
                for r in src[1]:
                    if len(r) != len(names):
                        raise DbError('syntax', 'INSERT has wrong number of values')
                    rows.append((True, dict(zip(names, [self.value(e, scope) for e in r]))))
            else:
                _, res = self.select(src[1], scope)
                for g, vals in res:
                    if len(vals) != len(names):
                        raise DbError('syntax', 'INSERT has wrong number of columns')
                    rows.append((g, dict(zip(names, vals))))
            return self.apply_insert(tab.name, rows, guard, mode)
        if k == 'update':
            _, table, alias, sets, where = st
            tab = self.find_table(table)
            self.in_use[-1].add(tab.name)
            self.check_1442(tab.name, guard)
            cols = [self.target_col(tab, c) for c, _ in sets]
            al = alias or table
            changes = []
            for i, row in enumerate(self.data[tab.name]):
                if row.guard is False:
                    continue
                s = Scope(parent=scope)
                s.tables = [(al, row.cols, tab)]
                s.guard = And(guard, row.guard)
                c = self.truth(where, s).t if where is not None else True
                if c is False:
                    continue

                def newvals(row2, cond, sets=sets):
                    s2 = Scope(parent=scope)
                    s2.tables = [(al, row2.cols, tab)]
                    s2.guard = cond
                    if self.dialect == 'mysql':
                        # assignments are evaluated left to right
                        cur = dict(row2.cols)
                        out = {}
                        for (c_, e), name in zip(sets, cols):
                            s2.tables = [(al, cur, tab)]
                            out[name] = self.value(e, s2)
                            cur = dict(cur)
                            cur[name] = out[name]
                        return out
                    return dict((name, self.value(e, s2)) for (c_, e), name in zip(sets, cols))
                changes.append((i, c, newvals))
            if not self.data[tab.name]:
                s = Scope(parent=scope)
                s.tables = [(al, dict((c, SVal(True, 0, tab.columns[c].kind)) for c in tab.columns), tab)]
                s.guard = False
                if where is not None:
                    self.truth(where, s)
                for c_, e in sets:
                    self.value(e, s)
            return self.apply_update(tab.name, changes, guard)
        if k == 'delete':
            _, table, where = st
            tab = self.find_table(table)
            self.in_use[-1].add(tab.name)
            self.check_1442(tab.name, guard)
            conds = []
            for i, row in enumerate(self.data[tab.name]):
                if row.guard is False:
                    continue
                s = Scope(parent=scope)
                s.tables = [(table, row.cols, tab)]
                s.guard = And(guard, row.guard)
                conds.append((i, self.truth(where, s).t if where is not None else True))
            return self.apply_delete(tab.name, conds, guard)
        raise SqlError('not a data statement: %s' % k)

    def target_col(self, tab, ident):
        c = self.find_col(tab.columns, ident)
        if c is None:
            raise DbError('undefined', 'table %s has no column named %s' % (tab.name, ident.name))
        return c

    # ---- statement entry point ------------------------------------------------------
    def parse(self, sql, formatted):
        key = (sql, formatted)
        if key not in self.parse_cache:
            self.parse_cache[key] = sqlparser.parse_sql(sql, self.dialect, formatted)
        return self.parse_cache[key]

    def begin_statement(self):
        self.errors = []
        self.stack = []
        self.in_use = [set()]
        self.stats['statements'] += 1

    def trig_name(self, ident):
        if self.dialect == 'postgresql':
            return ident.name if ident.quoted else ident.name.lower()
        return ident.name

    def create_trigger(self, st, params, sql):
        _, name, time, event, table, when, prog, ifne = st
        if self.dialect == 'sqlite3' and params:
            raise DbError('params', 'parameters prohibited in CREATE TRIGGER')
        tab = self.find_table(table)
        n = self.trig_name(name)
        limit = {'postgresql': 63, 'mysql': 64}.get(self.dialect)
        if limit and len(n) > limit:
            if self.dialect == 'mysql':
                raise DbError('syntax', 'Identifier name %r is too long' % n)
            n = n[:limit]
        for t in self.triggers:
            clash = t.name == n if self.dialect != 'sqlite3' else t.name.lower() == n.lower()
            if clash and (self.dialect != 'postgresql' or t.table == tab.name):
                if ifne:
                    return
                raise DbError('duplicate', 'trigger %s already exists' % n)
        if self.dialect == 'postgresql':
            if prog[0] != 'call' or when is not None:
                raise DbError('syntax', 'CREATE TRIGGER')
            fn = self.trig_name(prog[1])[:63]
            if fn not in self.functions:
                raise DbError('undefined', 'function %s() does not exist' % fn)
            prog = ('call', fn)
        else:
            if prog[0] == 'call':
                raise DbError('syntax', 'EXECUTE PROCEDURE')
            if self.dialect == 'mysql':
                self.check_records(prog, tab, event)
        self.seq += 1
        self.triggers.append(TriggerDef(n, time, event, tab.name, when, prog, params, self.seq, sql))

    def check_records(self, node, tab, event):
        """MySQL resolves NEW/OLD columns when the trigger is created"""
        if isinstance(node, tuple):
            if len(node) == 3 and node[0] == 'col' and node[1] is not None and node[1].name.upper() in ('NEW', 'OLD'):
                if self.find_col(tab.columns, node[2]) is None:
                    raise DbError('undefined', 'Unknown column %s in %s' % (node[2].name, node[1].name))
                if (event, node[1].name.upper()) in (('insert', 'OLD'), ('delete', 'NEW')):
                    raise DbError('undefined', 'There is no %s row in on %s trigger' % (node[1].name, event))
            for x in node:
                self.check_records(x, tab, event)
        elif isinstance(node, (list,)):
            for x in node:
                self.check_records(x, tab, event)
        elif isinstance(node, dict):
            for x in node.values():
                self.check_records(x, tab, event)
