"""The ways the library is called in production: management commands, the middleware, the daemon."""
import contextlib
import errno
import io
import logging
import os
import shutil
import signal
import sys
import tempfile
import time

from .terms import And
from . import speclib
from .programs import all_fresh, no_marks, aggs_exact, frame, rebuilt

RUNNING = 4711
CYCLES = 2


class Exited(BaseException):
    """os._exit"""


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = old


# ---- commands -----------------------------------------------------------------------------------------

def command_flush(h):
    from django.core.management import call_command
    with quiet():
        call_command('denorm_flush', verbosity=h.pick(2) + 1)


def command_rebuild(h):
    from django.core.management import call_command
    sel = [s for s in h.ob.spec.selections if s[1] is None]
    name, field, chosen = sel[h.pick(len(sel))]
    h.note('chosen', chosen)
    with quiet():
        call_command('denorm_rebuild', *([name] if name else []), verbosity=h.pick(2) + 1)


def up_to_date(ob, view):
    yield 'marks are left', no_marks(view), None
    yield 'a row is out of date', all_fresh(view, ob.spec.denorms), None
    if ob.spec.aggs:
        yield 'an aggregate is wrong', aggs_exact(view, ob.spec.aggs), None


def commanded(ob, h, pre, post, out):
    if out.mid is not None:
        yield 'the failure is hidden from the caller', out.first is not None, None
        yield 'a stale row lost its mark', speclib.invariant(out.mid, ob.spec.denorms), None
    yield 'raises', out.exc is None, None
    yield 'other data changed', frame(ob, pre, post), None
    for x in up_to_date(ob, post):
        yield x


def commanded_rebuild(ob, h, pre, post, out):
    return rebuilt(ob, h, pre, post, out)


commanded.durable = commanded_rebuild.durable = True


# ---- the middleware -----------------------------------------------------------------------------------

class Collect(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record.levelno)


EXCHANGES = (('GET', 200), ('POST', 302), ('HEAD', 404), ('PUT', 500))


def respond(h):
    from django.http import HttpRequest, HttpResponse
    from denorm.middleware import DenormMiddleware
    # what was asked and what is answered; nothing may depend on it
    request, response = HttpRequest(), HttpResponse('answer')
    ask, status = EXCHANGES[h.pick(len(EXCHANGES))]
    request.method, response.status_code = ask, status
    if ask == 'POST':
        request.META['HTTP_X_REQUESTED_WITH'] = 'XMLHttpRequest'
    log = Collect()
    loggers = [logging.getLogger(), logging.getLogger('denorm'), logging.getLogger('denorm.middleware')]
    state = [(g, g.level, g.disabled) for g in loggers]
    logging.getLogger().addHandler(log)
    old = logging.lastResort
    logging.lastResort = None
    try:
        for g in loggers[1:]:
            g.disabled = False
        if h.pick(2):
            r = DenormMiddleware(lambda req: response)(request)
        else:
            r = DenormMiddleware(lambda req: response).process_response(request, response)
        h.note('response', r is response and r.status_code == status and r.content == b'answer')
    finally:
        logging.lastResort = old
        logging.getLogger().removeHandler(log)
        for g, level, disabled in state:
            g.disabled = disabled
        h.note('logged', any(n >= logging.ERROR for n in log.records))


def request_over(h):
    """the end of a request, as Django announces it (closing connections is left out)"""
    from django.core.signals import request_finished
    from django.db import close_old_connections
    closes = request_finished.disconnect(close_old_connections)
    try:
        request_finished.send(sender=None)
    finally:
        if closes:
            request_finished.connect(close_old_connections)


def answered(ob, h, pre, post, out):
    from .flow import InjectedError
    if out.mid is not None:
        if ob.mode == 'error':
            yield 'a database error reaches the visitor', out.first is None, None
            yield 'the response is lost', bool(out.notes.get('response')), None
            yield 'a database error is not logged', bool(out.notes.get('logged')), None
        else:
            yield 'an error in a computed field is hidden', isinstance(out.first, InjectedError), None
        yield 'a stale row lost its mark', speclib.invariant(out.mid, ob.spec.denorms), None
        yield 'other data changed', frame(ob, pre, out.mid), None
    yield 'raises', out.exc is None, None
    yield 'the response is lost', bool(h.notes.get('response')), None
    yield 'other data changed', frame(ob, pre, post), None
    for x in up_to_date(ob, post):
        yield x


answered.durable = True


# ---- the daemon ---------------------------------------------------------------------------------------

@contextlib.contextmanager
def staged(h, situation, role, pidfile, log):
    """nothing the daemon does to processes or files outside its scratch directory is real"""
    import denorm.daemon
    from denorm.management.commands import denorm_daemon
    forks = {0: [101], 1: [0, 102], 2: [0, 0], 3: [OSError(errno.EAGAIN, 'no more processes')],
             4: [0, OSError(errno.EAGAIN, 'no more processes')]}[role]

    def kill(pid, sig):
        log['signals'].append((pid, sig))
        if pid == RUNNING and situation == 'other user':
            raise PermissionError(errno.EPERM, 'not permitted')
        if pid != RUNNING or situation != 'running':
            raise ProcessLookupError(errno.ESRCH, 'no such process')

    def fork():
        log['forks'] += 1
        if not forks:
            raise OSError(errno.EAGAIN, 'no more processes')
        r = forks.pop(0)
        if isinstance(r, OSError):
            raise r
        return r

    def leave(code):
        log['exit'] = code
        raise Exited()

    def sleep(seconds):
        log['sleeps'].append(h.committed())
        if len(log['sleeps']) >= CYCLES:
            raise KeyboardInterrupt()
        h.asleep()

    def nothing(*a, **kw):
        return 0
    stubs = [(os, 'kill', kill), (os, 'killpg', kill), (os, 'fork', fork), (os, '_exit', leave), (os, 'setsid', nothing),
             (os, 'umask', nothing), (os, 'chdir', nothing), (os, 'close', nothing), (os, 'dup2', nothing), (time, 'sleep', sleep),
             (signal, 'signal', nothing), (os, 'waitpid', nothing), (os, 'forkpty', fork)]
    undo = []
    for mod, name, stub in stubs:
        orig = getattr(mod, name)
        for m in (mod, denorm.daemon, denorm_daemon):
            for attr, val in list(vars(m).items()):
                if val is orig:
                    setattr(m, attr, stub)
                    undo.append((m, attr, orig))
    try:
        yield
    finally:
        for m, attr, orig in undo:
            setattr(m, attr, orig)


SITUATIONS = ('none', 'running', 'other user', 'stale')


def daemon(h):
    from django.core.management import call_command
    situation = SITUATIONS[h.pick(4)] if h.ob.mode == 'plain' else 'none'
    once = h.ob.mode == 'plain' and bool(h.pick(2))
    background = h.ob.mode == 'plain' and bool(h.pick(2))
    role = h.pick(5) if background and situation in ('none', 'stale') else 2
    log = {'signals': [], 'forks': 0, 'exit': None, 'sleeps': [], 'end': None, 'pid': None}
    for k, v in (('situation', situation), ('once', once), ('background', background), ('role', role), ('log', log)):
        h.note(k, v)
    scratch = tempfile.mkdtemp(prefix='denorm-daemon-')
    pidfile = os.path.join(scratch, 'pid')
    try:
        if situation != 'none':
            with open(pidfile, 'w') as f:
                f.write('%d%s' % (RUNNING, '\n' if situation == 'other user' else ''))
        with quiet(), staged(h, situation, role, pidfile, log):
            try:
                call_command('denorm_daemon', foreground=not background, run_once=once, pidfile=pidfile, interval=3)
            except (SystemExit, KeyboardInterrupt) as e:
                log['end'] = type(e).__name__
            except Exited:
                log['end'] = '_exit'
        if os.path.exists(pidfile):
            with open(pidfile) as f:
                log['pid'] = f.read().strip()
    finally:
        shutil.rmtree(scratch)


def cycled(ob, h, pre, post, out):
    n = h.notes
    log = n['log']
    yield 'a process is sent a signal', all(sig == 0 for pid, sig in log['signals']), None
    yield 'other data changed', True if ob.mode == 'sleep' else frame(ob, pre, post), None
    if ob.mode in ('error', 'interrupt'):
        yield 'a stale row lost its mark', speclib.invariant(post, ob.spec.denorms), None
        if ob.mode == 'interrupt':
            yield 'raises', out.exc is None, None
        return
    if n['background'] and n['role'] > 2 and n['situation'] in ('none', 'stale'):
        yield 'the failure is hidden', out.exc is not None or log['exit'] not in (None, 0), None
        yield 'the daemon works though it could not start', log['sleeps'] == [] and untouched(ob, pre, post), None
        return
    yield 'raises', out.exc is None, None
    if n['situation'] in ('running', 'other user'):
        yield 'a second daemon starts', log['sleeps'] == [] and log['forks'] == 0, None
        yield 'a second daemon flushes', untouched(ob, pre, post), None
        yield 'the pid file changes', log['pid'] == str(RUNNING), None
        return
    if n['background'] and n['role'] < 2:
        yield 'a parent process does not end', log['end'] == '_exit' and log['exit'] == 0, None
        yield 'a parent process works, too', log['sleeps'] == [] and untouched(ob, pre, post), None
        if n['role'] == 1:
            yield 'the daemon is not recorded', log['pid'] == '102', None
        return
    if not n['once']:
        yield 'the daemon stops', len(log['sleeps']) == CYCLES and log['end'] in ('SystemExit', 'KeyboardInterrupt'), None
        for i, v in enumerate(log['sleeps']):
            for label, p, kid in up_to_date(ob, v):
                yield '%s when the daemon sleeps' % label, p, kid
    else:
        yield 'it does not run once', log['end'] is None and len(log['sleeps']) <= 1, None
        for label, p, kid in up_to_date(ob, post):
            yield label, p, kid


def untouched(ob, pre, post):
    """nothing was flushed: marks and maintained columns are as before"""
    from .terms import Or, Not, Implies, same
    out = []
    for t in list(ob.sizes) + [ob.ctx.schema.dirty]:
        a, b = pre.slots(t), post.slots(t)
        for i, r in enumerate(b):
            if i >= len(a):
                out.append(Not(r.exists))
                continue
            out.append(Or(And(a[i].exists, r.exists), And(Not(a[i].exists), Not(r.exists))))
            out.extend(Implies(r.exists, same(a[i][c], r[c])) for c in r.cols)
    return And(*out)


cycled.durable = True
cycled.retry = False

PROGRAMS = {'command_flush': command_flush, 'command_rebuild': command_rebuild, 'respond': respond, 'request_over': request_over, 'daemon': daemon}
GOALS = {'commanded': commanded, 'commanded_rebuild': commanded_rebuild, 'answered': answered, 'cycled': cycled}
