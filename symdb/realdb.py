"""The concrete side: the same scenario on a real SQLite, PostgreSQL or MariaDB database."""
import os

from .terms import const, SVal
from .store import Row
from .harness import Schema, View, Texts, to_python, from_python


def settings_for(dialect, address, name):
    if dialect == 'sqlite3':
        return {'ENGINE': 'django.db.backends.sqlite3', 'NAME': '%s/%s.sqlite' % (address, name), 'OPTIONS': {'timeout': 2}}
    if dialect == 'postgresql':
        return {'ENGINE': 'django.db.backends.postgresql', 'NAME': name, 'USER': 'postgres', 'HOST': address}
    return {'ENGINE': 'django.db.backends.mysql', 'NAME': name, 'USER': 'root', 'HOST': address,
            'OPTIONS': {'charset': 'utf8mb4'}}


def create_database(dialect, address, name):
    if dialect == 'postgresql':
        import psycopg2
        c = psycopg2.connect(host=address, user='postgres', dbname='postgres')
        c.autocommit = True
        c.cursor().execute('CREATE DATABASE "%s"' % name)
        c.close()
    elif dialect == 'mysql':
        import MySQLdb
        c = MySQLdb.connect(unix_socket=address, user='root')
        c.cursor().execute('CREATE DATABASE `%s` CHARACTER SET utf8mb4' % name)
        c.close()


class Real(object):
    def __init__(self, schema):
        self.schema = schema
        self.dialect = schema.dialect
        from django.db import connection
        self.connection = connection
        self.quick()

    def create_schema(self):
        from django.contrib.contenttypes.models import ContentType
        from .harness import all_models
        if self.dialect == 'postgresql':
            self.connection.cursor().execute('CREATE EXTENSION IF NOT EXISTS citext')
        with self.connection.schema_editor() as ed:
            for m in all_models():
                if m._meta.auto_created:
                    continue
                ed.create_model(m)
        for m, n in self.schema.ct.items():
            ContentType.objects.create(id=n, app_label=m._meta.app_label, model=m._meta.model_name)
        ContentType.objects.create(id=self.schema.ghost, app_label='gone', model='ghost')
        ContentType.objects.clear_cache()

    def quick(self):
        """the scratch file need not survive a power failure"""
        if self.dialect == 'sqlite3':
            self.connection.cursor().execute('PRAGMA synchronous=OFF')

    def reconnect(self):
        """what a crash does: the connection is gone, its transaction rolled back"""
        c = self.connection
        raw, c.connection = c.connection, None
        if raw is not None:
            raw.rollback()
            raw.close()
        c.in_atomic_block = False
        c.savepoint_ids = []
        c.needs_rollback = False
        c.closed_in_transaction = False
        c.run_on_commit = []
        c.commit_on_exit = True
        c.execute_wrappers = []
        c.ensure_connection()
        c.set_autocommit(True)
        self.quick()

    def other(self):
        from django.db import connections
        return connections['other']

    def fresh_caches(self):
        from django.contrib.contenttypes.models import ContentType
        from django.core.cache import caches
        ContentType.objects.clear_cache()
        caches['default'].clear()

    def drop_all_triggers(self):
        """independent of the library's own drop"""
        cur = self.connection.cursor()
        qn = self.connection.ops.quote_name
        if self.dialect == 'sqlite3':
            cur.execute("SELECT name FROM sqlite_master WHERE type = 'trigger'")
            for (n,) in cur.fetchall():
                cur.execute('DROP TRIGGER %s' % qn(n))
        elif self.dialect == 'postgresql':
            cur.execute("SELECT t.tgname, c.relname FROM pg_trigger t JOIN pg_class c ON t.tgrelid = c.oid "
                        "WHERE NOT t.tgisinternal")
            for n, t in cur.fetchall():
                cur.execute('DROP TRIGGER %s ON %s' % (qn(n), qn(t)))
            cur.execute("SELECT proname FROM pg_proc WHERE prorettype = 'trigger'::regtype AND pronamespace = "
                        "'public'::regnamespace")
            for (n,) in cur.fetchall():
                cur.execute('DROP FUNCTION %s()' % qn(n))
        else:
            cur.execute('SHOW TRIGGERS')
            for r in cur.fetchall():
                cur.execute('DROP TRIGGER %s' % qn(r[0]))

    def catalogue(self):
        """(trigger, table) -> (event, definition)"""
        cur = self.connection.cursor()
        if self.dialect == 'sqlite3':
            cur.execute("SELECT name, tbl_name, sql FROM sqlite_master WHERE type = 'trigger'")
            out = {}
            for n, t, sql in cur.fetchall():
                words = sql.upper().split()
                out[n, t] = (next(w for w in words if w in ('INSERT', 'UPDATE', 'DELETE')), sql)
            return out
        if self.dialect == 'postgresql':
            cur.execute("SELECT t.tgname, c.relname, t.tgtype, pg_get_triggerdef(t.oid), p.prosrc FROM pg_trigger t JOIN pg_class c "
                        "ON t.tgrelid = c.oid JOIN pg_proc p ON p.oid = t.tgfoid WHERE NOT t.tgisinternal")
            return dict(((n, t), ('INSERT' if ty & 4 else 'DELETE' if ty & 8 else 'UPDATE', d + s))
                        for n, t, ty, d, s in cur.fetchall())
        cur.execute('SHOW TRIGGERS')
        return dict(((r[0], r[2]), (r[1], r[3])) for r in cur.fetchall())

    def drop_trigger(self, name, table):
        qn = self.connection.ops.quote_name
        self.connection.cursor().execute('DROP TRIGGER %s%s' % (
            qn(name), ' ON %s' % qn(table) if self.dialect == 'postgresql' else ''))

    def noop_trigger(self, name, table, event):
        """somebody else's trigger"""
        qn = self.connection.ops.quote_name
        cur = self.connection.cursor()
        if self.dialect == 'postgresql':
            cur.execute('CREATE OR REPLACE FUNCTION noop() RETURNS trigger AS $$ BEGIN RETURN NULL; END; $$ LANGUAGE plpgsql')
            body = 'EXECUTE PROCEDURE noop()'
        else:
            body = 'BEGIN DELETE FROM %s WHERE 1 = 0; END' % qn(self.schema.dirty)
        cur.execute('CREATE TRIGGER %s AFTER %s ON %s FOR EACH ROW %s' % (qn(name), event.upper(), qn(table), body))

    def clear(self):
        cur = self.connection.cursor()
        qn = self.connection.ops.quote_name
        if self.dialect == 'mysql':
            cur.execute('SET foreign_key_checks=0')
        if self.dialect == 'sqlite3':
            cur.execute('PRAGMA foreign_keys=OFF')
        tables = [t for t in self.schema.order if t != self.schema.ct_table]
        if self.dialect == 'postgresql':
            cur.execute('TRUNCATE %s CASCADE' % ', '.join(qn(t) for t in tables))
        else:
            for t in tables:
                cur.execute('DELETE FROM %s' % qn(t))
        if self.dialect == 'sqlite3':
            cur.execute('PRAGMA foreign_keys=ON')
        if self.dialect == 'mysql':
            cur.execute('SET foreign_key_checks=1')

    def py(self, t, c, code):
        v = to_python(self.schema.codecs[t, c], code, self.texts)
        if isinstance(v, str):
            self.rev[v] = code
        return v

    def prep(self, t, c, code):
        """value as a query parameter"""
        v = self.py(t, c, code)
        m = self.schema.models[t]
        f = next(f for f in m._meta.local_concrete_fields if f.column == c)
        if v is None:
            return None
        if self.schema.codecs[t, c] in ('int', 'text'):
            return v
        return f.get_db_prep_save(v, self.connection)

    def insert(self, t, row):
        cur = self.connection.cursor()
        qn = self.connection.ops.quote_name
        cols = list(row)
        cur.execute('INSERT INTO %s (%s) VALUES (%s)' % (qn(t), ', '.join(qn(c) for c in cols),
                                                         ', '.join(['%s'] * len(cols))),
                    [self.prep(t, c, row[c]) for c in cols])

    def load(self, case):
        self.texts = Texts(dict((int(k), v) for k, v in case.get('folds', {}).items()))
        self.rev = {}
        cur = self.connection.cursor()
        if self.dialect == 'mysql':
            cur.execute('SET foreign_key_checks=0')
        dirty = self.schema.dirty
        for t, rows in case['init'].items():
            for r in rows:
                self.insert(t, r)
        if self.dialect == 'mysql':
            cur.execute('SET foreign_key_checks=1')
        # new rows get the ids the model gives them
        qn = self.connection.ops.quote_name
        for t in case['init']:
            tab = self.schema.tables[t]
            if not tab.auto:
                continue
            if self.dialect == 'postgresql':
                cur.execute("SELECT setval(pg_get_serial_sequence(%s, %s), 1000)", [qn(t), tab.pk])
            elif self.dialect == 'mysql':
                if t != dirty:
                    cur.execute('ALTER TABLE %s AUTO_INCREMENT = 1001' % qn(t))
            else:
                cur.execute('DELETE FROM sqlite_sequence WHERE name = %s', [t])
                cur.execute('INSERT INTO sqlite_sequence (name, seq) VALUES (%s, 1000)', [t])

    def run_op(self, op, connection=None):
        """one SQL statement"""
        t = op['table']
        tab = self.schema.tables[t]
        cur = (connection or self.connection).cursor()
        qn = self.connection.ops.quote_name
        if op['event'] == 'insert':
            cols = list(op['rows'][0])
            vals = ', '.join('(%s)' % ', '.join(['%s'] * len(cols)) for r in op['rows'])
            cur.execute('INSERT INTO %s (%s) VALUES %s' % (qn(t), ', '.join(qn(c) for c in cols), vals),
                        [self.prep(t, c, r[c]) for r in op['rows'] for c in cols])
        elif op['event'] == 'update':
            if not op['rows']:
                return
            cols = list(op['rows'][0][1])
            sets = []
            params = []
            if not cols:
                return
            for c in cols:
                cast = ''
                if self.dialect == 'postgresql':
                    m = self.schema.models[t]
                    f = next(f for f in m._meta.local_concrete_fields if f.column == c)
                    cast = '::' + (f.rel_db_type(self.connection) if hasattr(f, 'rel_db_type') and False else
                                   f.db_type(self.connection).replace('serial', 'integer'))
                parts = ''
                for pk, vals in op['rows']:
                    parts += ' WHEN %s THEN %s' + cast
                    params += [self.prep(t, tab.pk, pk), self.prep(t, c, vals[c])]
                sets.append('%s = CASE %s%s END' % (qn(c), qn(tab.pk), parts))
            params += [self.prep(t, tab.pk, pk) for pk, _ in op['rows']]
            cur.execute('UPDATE %s SET %s WHERE %s IN (%s)' % (
                qn(t), ', '.join(sets), qn(tab.pk), ', '.join(['%s'] * len(op['rows']))), params)
        else:
            if not op['rows']:
                return
            cur.execute('DELETE FROM %s WHERE %s IN (%s)' % (qn(t), qn(tab.pk), ', '.join(['%s'] * len(op['rows']))),
                        [self.prep(t, tab.pk, pk) for pk in op['rows']])

    def dump(self, connection=None):
        """state as a View"""
        cur = (connection or self.connection).cursor()
        qn = self.connection.ops.quote_name
        data = {}
        for t in self.schema.order:
            tab = self.schema.tables[t]
            cols = list(tab.columns)
            cur.execute('SELECT %s FROM %s' % (', '.join(qn(c) for c in cols), qn(t)))
            rows = []
            for r in cur.fetchall():
                vals = {}
                for c, v in zip(cols, r):
                    code = from_python(self.schema.codecs[t, c], v, self.rev)
                    vals[c] = SVal(True, 0, tab.columns[c].kind) if code is None else \
                        SVal(False, code, tab.columns[c].kind)
                rows.append(Row(True, vals))
            rows.sort(key=lambda r: r.cols[tab.pk].v)
            data[t] = rows
        return View(self.schema, data)


def align(schema, pre, post):
    """give both views the same slot order: by primary key, missing rows as absent slots"""
    a, b = {}, {}
    for t in schema.order:
        pk = schema.tables[t].pk
        da = dict((r.cols[pk].v, r) for r in pre.data[t])
        dbb = dict((r.cols[pk].v, r) for r in post.data[t])
        keys = sorted(da) + sorted(k for k in dbb if k not in da)
        ra, rb = [], []
        for k in keys:
            if k in da:
                ra.append(da[k])
                rb.append(dbb[k] if k in dbb else Row(False, da[k].cols))
            else:
                rb.append(dbb[k])
        a[t], b[t] = ra, rb
    return View(schema, a), View(schema, b)


def data_json(schema, view, tables):
    out = {}
    for t in tables:
        tab = schema.tables[t]
        out[t] = [dict((c, None if r.cols[c].null else r.cols[c].v) for c in tab.columns) for r in view.data[t]]
    return out


def same_state(schema, expected, got, ignore):
    """compare dumps; marks as multisets, ignored columns left out. -> difference or None"""
    for t in expected:
        def key(r):
            if t == schema.dirty:
                return (r['content_type_id'], -1 if r['object_id'] is None else r['object_id'])
            return tuple(sorted((c, -10 ** 15 if v is None else v) for c, v in r.items()
                                if '%s.%s' % (t, c) not in ignore))
        x = sorted(map(key, expected[t]))
        y = sorted(map(key, got[t]))
        if t == schema.dirty:
            x, y = sorted(set(x)), sorted(set(y))
        if x != y:
            return '%s: model says %s, database says %s' % (t, x, y)
    return None
