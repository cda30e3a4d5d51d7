"""What a worker does with a request: enumerate and decide obligations (symbolic engine), or
replay a counterexample / validate a witness (real database)."""
import importlib
import json
import signal
import time
import traceback

from . import explore, install, stmt, obs, checks, terms
from .explore import STATS, Stats
from .store import Unsupported
from .harness import View, patch_django


class SymWorker(object):
    def __init__(self, app, dialect, M, schema):
        self.app, self.dialect, self.M, self.schema = app, dialect, M, schema
        patch_django()
        self.ctx = stmt.Ctx(schema, app)
        self.ctx.M = M
        self.mod = importlib.import_module(app + '.spec')
        self.install_error = None
        if getattr(self.mod, 'INSTALL', True):
            try:
                self.ctx.install()
            except (Exception, Unsupported) as e:
                self.install_error = '%s: %s' % (type(e).__name__, e)
                self.install_trace = traceback.format_exc()[-2000:]

    def handle(self, req):
        if self.install_error is not None:
            if req['shard']:
                return
            yield {'status': 'violated', 'what': 'installing the triggers fails: %s' % self.install_error,
                   'desc': {'ob': 'install'}, 'case': {}, 'stats': Stats().as_dict(), 'trace': self.install_trace}
            return
        spec = self.mod.spec(self.M, self.schema, req['tier'])
        plan = checks.plan(req['prop'], self.ctx, spec, req['tier'])
        if req.get('list'):
            yield {'plan': [ob.desc() for ob in plan]}
            return
        deadline = req.get('deadline')
        for i, ob in enumerate(plan):
            split = getattr(ob, 'splits', False) and len(plan) < 2 * req['shards']
            if split:
                ob.shard, ob.shards = req['shard'], req['shards']
            elif i % req['shards'] != req['shard']:
                continue
            explore.STATS.__init__()
            t0 = time.time()
            ob.deadline = deadline
            ob.seed = req.get('seed', 0)
            ob.tier = req['tier']
            if deadline and time.time() > deadline:
                yield {'status': 'skipped', 'desc': ob.desc(), 'app': self.app, 'dialect': self.dialect, 'incomplete': True}
                continue
            try:
                r = ob.decide()
            except (Exception, Unsupported) as e:
                r = {'status': 'error', 'error': '%s: %s' % (type(e).__name__, e), 'desc': ob.desc(),
                     'trace': traceback.format_exc()[-3000:]}
            if split and req['shard'] and r.get('frontier') == '':
                continue            # too small to be shared out: the first shard did all of it
            r['wall'] = time.time() - t0
            r['stats'] = STATS.as_dict()
            r['app'], r['dialect'] = self.app, self.dialect
            for c in r.get('witnesses', []) + [k['case'] for k in r.get('known', [])] + [r.get('case')]:
                if c is not None:
                    c['texts'] = terms.text_table()
            yield r


class Timeout(Exception):
    pass


def alarm(signum, frame):
    raise Timeout('replay took too long')


class RealWorker(object):
    def __init__(self, app, dialect, M, schema):
        from . import realdb
        self.app, self.dialect, self.M, self.schema = app, dialect, M, schema
        self.real = realdb.Real(schema)
        self.real.create_schema()
        self.ctx = stmt.Ctx(schema, app)
        self.ctx.M = M
        self.ctx.real = self.real
        self.mod = importlib.import_module(app + '.spec')
        signal.signal(signal.SIGALRM, alarm)

    def handle(self, req):
        desc, case = req['desc'], req['case']
        if case.get('texts'):
            terms.adopt_texts(case['texts'])
        spec = self.mod.spec(self.M, self.schema, req.get('tier', 'quick'))
        signal.alarm(req.get('limit', 60))
        try:
            if desc['ob'] == 'boot':
                yield {'violated': None}
                return
            if desc['ob'] == 'install':
                yield self.replay_install()
                return
            ob = checks.from_desc(self.ctx, spec, desc)
            try:
                ans = (ob.validate if req['mode'] == 'validate' else ob.replay)(self.real, case)
            except Exception:
                ans = self.replay_install()
                if not ans['violated']:
                    raise
            yield ans
        finally:
            signal.alarm(0)
            try:
                from django.db import connection
                if connection.in_atomic_block or not connection.get_autocommit():
                    connection.close()
            except Exception:
                pass

    def replay_install(self):
        self.real.drop_all_triggers()
        self.real.clear()
        try:
            install.install()
        except Exception as e:
            return {'violated': 'installing the triggers fails: %s: %s' % (type(e).__name__, e)}
        return {'violated': None}
