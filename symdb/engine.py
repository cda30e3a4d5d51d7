"""DB-API objects over the symbolic store, used by the Django database engines in backends/."""
from .terms import And, Or, Not, SVal, NULL, TEXTS, const, text_code, text_of, _num
from .store import DbError, Scope, Unsupported
from .sqlparser import SqlError
from . import explore
from .explore import SymVal

DB = None           # the store all connections talk to
HOOKS = []          # objects with before(conn, kind, sql) / after(conn, kind, sql)

ERR_CLASS = {'fk': 'IntegrityError', 'notnull': 'IntegrityError', 'check': 'IntegrityError', 'unique': 'IntegrityError',
             '1442': 'OperationalError', 'depth': 'OperationalError', 'cardinality': 'OperationalError',
             'syntax': 'ProgrammingError', 'undefined': 'ProgrammingError', 'type': 'ProgrammingError',
             'duplicate': 'ProgrammingError', 'params': 'ProgrammingError'}


class Connection(object):
    def __init__(self, wrapper):
        self.wrapper = wrapper
        self.autocommit = True
        self.in_txn = False
        self.wrote = False
        self.did_read = False
        self.locks = set()          # (table, slot) this transaction has locked
        self.txn_start = None
        self.savepoints = []
        self.marks = {}             # trigger catalogue at the savepoints
        self.ddl = False
        self.short = False
        self.calls = 0
        self.aborted = False
        self.isolation_level = None
        self.encoding = 'UTF8'
        self.server_version = 160000

    # transactions
    def begin(self):
        if not self.in_txn:
            self.in_txn = True
            self.txn_start = DB.snapshot()
            self.catalogue = DB.catalogue_state()
            self.ddl = self.short = False
            self.savepoints = []
            self.wrote = self.did_read = False
            self.locks = set()
            self.aborted = False

    def commit(self):
        if self.aborted:
            return self.rollback()
        if self.in_txn and self.wrote and explore.CUR is not None and DB.deferred_fk and \
                self.fk_broken(self.txn_start, DB.data):
            if DB.dialect == 'postgresql':
                self.rollback()
            self.raise_error('fk', 'FOREIGN KEY constraint failed')
        self.in_txn = False
        self.wrote = False
        self.savepoints = []
        self.notify('after', 'commit', 'COMMIT')

    def fk_broken(self, before, after):
        bad = DB.dangling(before, after)
        return bad if isinstance(bad, bool) else explore.CUR.decide(bad)

    def rollback(self):
        if self.in_txn:
            DB.restore(self.txn_start)
            if self.ddl:
                DB.set_catalogue(self.catalogue)
        self.in_txn = False
        self.wrote = False
        self.aborted = False
        self.savepoints = []

    def close(self):
        self.rollback()

    def durable(self):
        """what survives a crash at this point"""
        return self.txn_start if self.in_txn else DB.data

    def notify(self, what, kind, sql):
        for h in list(HOOKS):
            getattr(h, what)(self, kind, sql)

    def raise_error(self, kind, msg):
        mod = self.wrapper.Database
        cls = getattr(mod, ERR_CLASS.get(kind, 'OperationalError'))
        if self.in_txn and DB.dialect == 'postgresql':
            self.aborted = True
        raise cls(msg)


class Cursor(object):
    arraysize = 100

    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.pos = 0
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self.query = ''

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def nextset(self):
        return None

    @staticmethod
    def param(p):
        if isinstance(p, SymVal):
            return p.to_sval()
        if p is None or isinstance(p, (int, str)):
            return const(p)
        return const(str(p))

    def execute(self, sql, params=None):
        self.query = sql
        conn = self.conn
        db = DB
        conn.calls += 1
        svals = [self.param(p) for p in (params or ())]
        try:
            stmts = db.parse(sql, params is not None)
        except SqlError as e:
            raise Unsupported('cannot parse: %s' % e)
        for st in stmts:
            self.execute_one(st, svals, sql)
        return self

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)
        return self

    def execute_one(self, st, params, sql):
        conn = self.conn
        db = DB
        k = st[0]
        self.rows, self.pos = [], 0
        if k in ('begin',):
            conn.begin()
            return
        if k == 'commit':
            conn.commit()
            return
        if k == 'rollback':
            conn.rollback()
            return
        if k == 'savepoint':
            if not conn.in_txn:
                # autocommit is off: a transaction begins (in SQLite it ends with this savepoint)
                conn.begin()
                conn.short = db.dialect == 'sqlite3'
            conn.savepoints.append((st[1], db.snapshot()))
            conn.marks[st[1]] = db.catalogue_state()
            return
        if k in ('rollback_to', 'release'):
            for i in range(len(conn.savepoints) - 1, -1, -1):
                if conn.savepoints[i][0] == st[1]:
                    if k == 'rollback_to':
                        db.restore(conn.savepoints[i][1])
                        if conn.ddl:
                            db.set_catalogue(conn.marks[st[1]])
                        conn.aborted = False
                        del conn.savepoints[i + 1:]
                    else:
                        del conn.savepoints[i:]
                        if conn.short and not conn.savepoints:
                            conn.commit()
                    break
            else:
                if db.dialect == 'mysql':
                    conn.raise_error('undefined', 'SAVEPOINT does not exist')
            return
        if k == 'nop':
            return
        if conn.aborted:
            conn.raise_error('syntax', 'current transaction is aborted, commands ignored until end of transaction block')
        if not conn.autocommit and not conn.in_txn:
            conn.begin()
        kind = 'read' if k == 'select' else 'write'
        if k in ('create_trigger', 'drop_trigger', 'create_function', 'drop_function', 'show_triggers'):
            kind = 'ddl'
        conn.notify('before', kind, sql)
        if kind == 'ddl' and k != 'show_triggers':
            if db.dialect == 'mysql' and conn.in_txn:
                # schema changes commit
                conn.commit()
                conn.begin()
            conn.ddl = True
        before = db.snapshot()
        db.begin_statement()
        try:
            res = self.dispatch(st, params, sql)
        except DbError as e:
            db.restore(before)
            conn.notify('error', kind, sql)
            conn.raise_error(e.kind, e.msg)
        except SqlError as e:
            raise Unsupported(str(e))
        # runtime errors raised under some condition
        for ek, eg, em in db.errors:
            if ek == 'depth':
                if explore.CUR is None or explore.CUR.feasible(eg):
                    raise Unsupported('trigger recursion bound reached')
                continue
            hit = eg if isinstance(eg, bool) else explore.CUR.decide(eg)
            if hit:
                db.restore(before)
                conn.notify('error', kind, sql)
                conn.raise_error(ek, em)
        for a in db.assumptions:
            if explore.CUR is not None:
                explore.CUR.assume(a)
        db.assumptions = []
        if kind == 'write' and explore.CUR is not None and not (conn.in_txn and db.deferred_fk) and \
                conn.fk_broken(before, db.data):
            db.restore(before)
            conn.notify('error', kind, sql)
            conn.raise_error('fk', 'FOREIGN KEY constraint failed')
        if kind == 'write':
            conn.wrote = True
            if conn.in_txn:
                for t, rows in db.data.items():
                    old = before.get(t, ())
                    conn.locks.update((t, i) for i, r in enumerate(rows) if i >= len(old) or old[i] is not r)
        self.result(st, res)
        if kind == 'read':
            conn.did_read = True
            if st[0] == 'select' and st[1].get('lock') and conn.in_txn:
                self.lock_rows(st[1])
        conn.notify('after', kind, sql)

    def dispatch(self, st, params, sql):
        db = DB
        k = st[0]
        scope = Scope(params=params)
        if k == 'select':
            return db.select(st[1], scope, top=True)
        if k in ('insert', 'update', 'delete'):
            return db.run_dml(st, scope, True)
        if k == 'create_trigger':
            return db.create_trigger(st, params, sql)
        if k == 'create_function':
            db.functions[db.trig_name(st[1])[:63]] = (st[2], params)
            return None
        if k == 'drop_trigger':
            n = db.trig_name(st[1])
            tab = None
            if st[2] is not None:
                tab = db.find_table(st[2]).name
            for t in db.triggers:
                if (t.name == n or (db.dialect == 'sqlite3' and t.name.lower() == n.lower())) and \
                        (db.dialect != 'postgresql' or t.table == tab):
                    db.triggers.remove(t)
                    return None
            if not st[3]:
                raise DbError('undefined', 'no such trigger: %s' % n)
            return None
        if k == 'drop_function':
            n = db.trig_name(st[1])
            if n not in db.functions and not st[2]:
                raise DbError('undefined', 'function %s does not exist' % n)
            db.functions.pop(n, None)
            return None
        if k == 'show_triggers':
            from .names import name_val
            return ['Trigger', 'Event', 'Table'], [(True, [name_val(t.name), const(t.event.upper()), const(t.table)])
                                                   for t in db.triggers]
        raise Unsupported('statement %s' % k)

    def lock_rows(self, d):
        """SELECT ... FOR UPDATE locks the rows it returned"""
        for src, alias, jt, on in d['frm']:
            tab = DB.find_table(src[1])
            names = [c[0] for c in self.description]
            if tab.pk not in names:
                raise Unsupported('locking rows without reading their keys')
            for r in self.rows:
                for i, s in enumerate(DB.data[tab.name]):
                    pk = s.cols[tab.pk]
                    if s.guard is not False and not pk.null and self.out(pk, False) == r[names.index(tab.pk)]:
                        self.conn.locks.add((tab.name, i))

    # results
    def result(self, st, res):
        db = DB
        k = st[0]
        if k == 'insert':
            self.rowcount = len(res)
            if res:
                last = res[-1]
                self.lastrowid = last.v if _num(last.v) else explore.CUR.concretize(last.v)
            if st[5] is not None:
                self.rows = [(self.lastrowid,)]
            return
        if k in ('update', 'delete'):
            self.rowcount = res if _num(res) else explore.CUR.concretize(res)
            return
        if k in ('select', 'show_triggers'):
            names, rows = res
            self.description = [(n, None, None, None, None, None, None) for n in names]
            if k == 'select':
                metas = self.metas(st[1])
                okeys, lim, off = db.top_order
            else:
                metas = [False] * len(names)
                okeys = lim = off = None
            self.fetch_rows(rows, metas, okeys, lim, off)
            self.rowcount = len(self.rows)

    def metas(self, d):
        """which result columns may stay symbolic"""
        db = DB
        tabs = []
        for src, alias, jt, on in d['frm']:
            if src[0] == 'table':
                tabs.append((alias or src[1], db.find_table(src[1])))
        out = []
        for e, a in d['items']:
            if e[0] == 'star':
                for al, tab in tabs:
                    if e[1] is None or db.same_name(al, e[1]):
                        out.extend(c.payload for c in tab.columns.values())
            elif e[0] == 'col':
                p = None
                for al, tab in tabs:
                    if e[1] is None or db.same_name(al, e[1]):
                        c = db.find_col(tab.columns, e[2])
                        if c is not None:
                            p = tab.columns[c].payload
                            break
                out.append(bool(p))
            else:
                out.append(True)
        return out

    def fetch_rows(self, rows, metas, okeys, lim, off):
        cur = explore.CUR
        chosen = []
        need = None if lim is None else lim + (off or 0)
        for i, (g, vals) in enumerate(rows):
            if need is not None and okeys is None and len(chosen) >= need:
                break
            ok = g if isinstance(g, bool) else cur.decide(g)
            if ok:
                chosen.append((i, vals))
        if okeys is not None and len(chosen) > 1:
            import functools

            def cmp(a, b):
                for (x, desc), (y, _) in zip(okeys[a[0]], okeys[b[0]]):
                    if x.null is not False or y.null is not False or x.kind in TEXTS:
                        a1, b1 = self.out(x, False), self.out(y, False)
                        if a1 == b1:
                            continue
                        last = DB.dialect == 'postgresql'
                        ka = ((a1 is None) == last, a1 if a1 is not None else 0)
                        kb = ((b1 is None) == last, b1 if b1 is not None else 0)
                        less = ka[0] < kb[0] if ka[0] != kb[0] else ka[1] < kb[1]
                        return (-1 if less else 1) * (-1 if desc else 1)
                    lt = (x.v > y.v) if desc else (x.v < y.v)
                    if lt if isinstance(lt, bool) else cur.decide(lt):
                        return -1
                    gt = (x.v < y.v) if desc else (x.v > y.v)
                    if gt if isinstance(gt, bool) else cur.decide(gt):
                        return 1
                return a[0] - b[0]
            chosen.sort(key=functools.cmp_to_key(cmp))
        if off:
            chosen = chosen[off:]
        if lim is not None:
            chosen = chosen[:lim]
        self.rows = [tuple(self.out(v, m) for v, m in zip(vals, metas)) for i, vals in chosen]

    def out(self, v, symbolic):
        cur = explore.CUR
        if v.null is True:
            return None
        if v.kind == 'str':
            from . import names
            return names.out(v)
        if v.null is not False and cur.decide(v.null):
            return None
        if _num(v.v):
            return text_of(v.v) if v.kind in TEXTS else v.v
        if symbolic:
            return SymVal(v.v, 'text' if v.kind in TEXTS else 'int')
        c = cur.concretize(v.v)
        return text_of(c) if v.kind in TEXTS else c

    def fetchone(self):
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchmany(self, size=None):
        r = self.rows[self.pos:self.pos + (size or self.arraysize)]
        self.pos += len(r)
        return tuple(r) if DB.dialect == 'mysql' else r      # what MySQLdb returns, Django compares with ()

    def fetchall(self):
        r = self.rows[self.pos:]
        self.pos = len(self.rows)
        return r

    def __iter__(self):
        return iter(self.fetchall())
