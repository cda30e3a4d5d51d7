#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough]: decide one property, exit 0 (held) or 1 (VIOLATION line).

Anything that could not be decided ends with exit status 2 and a line starting ERROR."""
import argparse
import json
import os
import signal
import subprocess
import sys
import threading
import time
from queue import Queue

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONWARNINGS', 'ignore::SyntaxWarning')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

from symdb import registry          # noqa: E402
from symdb.servers import Servers   # noqa: E402

PY = '/opt/venv/bin/python'
JOBS = 8


class Proc(object):
    """a worker process speaking JSON lines"""

    def __init__(self, *args):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = '0'
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'symdb.worker'] + list(args), cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.err = []
        self.functions = ()
        self.t = threading.Thread(target=self._drain, daemon=True)
        self.t.start()

    def _drain(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-60]

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except OSError:
            pass
        while True:
            line = self.p.stdout.readline()
            if not line:
                self.p.wait()
                time.sleep(0.1)
                yield {'status': 'error', 'error': 'worker died (%s)' % self.p.returncode, 'trace': ''.join(self.err)[-3000:]}
                return
            r = json.loads(line)
            if r.get('done'):
                self.functions = r.get('functions', ())
                return
            yield r

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Run(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.servers = Servers()
        self.results = []
        self.lock = threading.Lock()
        self.real = {}
        self.functions = set()
        self.t0 = time.time()
        os.environ['SCN_INSTALL'] = registry.INSTALL.get(prop, 'install')

    def symbolic(self):
        q = Queue()
        budget = registry.budget(self.prop, self.tier)
        deadline = self.t0 + budget
        for app, dialects in registry.SCENARIOS[self.prop]:
            for d in dialects:
                shards = registry.shards(self.prop, app, d, self.tier)
                for k in range(shards):
                    q.put((app, d, k, shards))

        def loop():
            while True:
                try:
                    app, d, k, shards = q.get_nowait()
                except Exception:
                    return
                p = Proc('sym', app, d)
                try:
                    for r in p.ask({'prop': self.prop, 'tier': self.tier, 'seed': self.seed, 'shard': k,
                                    'shards': shards, 'deadline': deadline}):
                        r.setdefault('app', app)
                        r.setdefault('dialect', d)
                        with self.lock:
                            self.results.append(r)
                finally:
                    with self.lock:
                        self.functions.update(p.functions)
                    p.close()
        ts = [threading.Thread(target=loop) for _ in range(JOBS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def ask_real(self, app, dialect, reqs):
        """answers of a real-database worker"""
        with self.lock:
            address = self.servers.address(dialect)
        p = Proc('real', app, dialect, address)
        out = []
        try:
            for r in reqs:
                got = list(p.ask(r))
                out.append(got[0] if got else {'status': 'error', 'error': 'no answer'})
        finally:
            p.close()
        return out

    def replay_all(self, items):
        """items: [(result, mode, case)] -> answers in order"""
        groups = {}
        for i, (r, mode, case) in enumerate(items):
            groups.setdefault((r['app'], r['dialect']), []).append(i)
        answers = [None] * len(items)
        q = Queue()
        for g in groups.items():
            q.put(g)

        def loop():
            while True:
                try:
                    (app, d), idx = q.get_nowait()
                except Exception:
                    return
                try:
                    res = self.ask_real(app, d, [{'mode': items[i][1], 'desc': items[i][0]['desc'], 'case': items[i][2],
                                                  'tier': self.tier} for i in idx])
                except Exception as e:
                    res = [{'status': 'error', 'error': '%s: %s' % (type(e).__name__, e)} for i in idx]
                for i, a in zip(idx, res):
                    answers[i] = a
        ts = [threading.Thread(target=loop) for _ in range(min(JOBS, len(groups)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return answers

    def repeat(self, case):
        ans, = self.ask_real(case['scenario'], case['engine'], [{
            'mode': 'replay', 'desc': case['obligation'], 'case': case['case'], 'tier': self.tier}])
        print(ans.get('violated') or ans.get('error') or 'held')
        return 1 if ans.get('violated') else 2 if ans.get('error') else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay', help='repeat a reported counterexample on the real database')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0'))
    except ValueError:
        seed = 0
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        a.prop = case['property']
    if a.prop not in registry.SCENARIOS:
        ap.error('which property?')
    run = Run(a.prop, tier, seed)
    try:
        if a.replay:
            code = run.repeat(case)
            return sys.exit(code)
        from symdb import report
        code = report.conclude(run, a.v)
    finally:
        run.servers.stop()
    sys.stdout.flush()
    sys.exit(code)


if __name__ == '__main__':
    main()
