"""Worker process: one scenario on one engine (symbolic) or database (real).
Reads JSON requests line by line on stdin, answers on stdout."""
import importlib
import json
import os
import signal
import sys
import threading
import traceback


CODE = {}


def watch():
    """note which functions of the library the symbolic engine executes"""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'denorm') + os.sep

    def start(code, offset):
        if code.co_filename.startswith(root) and not code.co_name.startswith('<'):
            CODE['%s:%s' % (code.co_filename[len(root) - len('denorm/'):], code.co_qualname.replace('.<locals>', ''))] = True
        return mon.DISABLE
    mon.use_tool_id(4, 'symdb')
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


def out(obj):
    sys.__stdout__.write(json.dumps(obj) + '\n')
    sys.__stdout__.flush()


def end_with_parent():
    """a worker whose check was killed must not go on computing"""
    parent, getppid, leave, pause = os.getppid(), os.getppid, os._exit, threading.Event()

    def look():
        while getppid() == parent:
            pause.wait(3)
        leave(3)
    threading.Thread(target=look, daemon=True).start()


def main(argv):
    end_with_parent()
    mode, app, dialect = argv[:3]
    sys.stdout = sys.stderr
    if mode == 'sym':
        watch()
    from . import harness
    real = None
    if mode == 'real':
        from . import realdb
        address = argv[3]
        name = 'v_%s_%d' % (app, os.getpid())
        realdb.create_database(dialect, address, name)
        real = realdb.settings_for(dialect, address, name)
    w = None
    try:
        M = harness.boot(app, dialect, real)
    except Exception as e:
        # the scenario's models are legitimate, so refusing them is a violation (confirmed by the real worker)
        boot_error = 'models cannot be loaded: %s: %s' % (type(e).__name__, e)
        boot_trace = traceback.format_exc()[-3000:]
    else:
        from . import jobs
        schema = harness.Schema(dialect, getattr(importlib.import_module(app + '.spec'), 'ID_COLUMNS', ()))
        w = (jobs.RealWorker if mode == 'real' else jobs.SymWorker)(app, dialect, M, schema)
    for line in sys.stdin:
        req = json.loads(line)
        if w is None:
            if mode == 'real':
                out({'violated': boot_error})
            elif req['shard'] == 0:
                out({'status': 'violated', 'what': boot_error, 'desc': {'ob': 'boot'}, 'case': {}, 'trace': boot_trace})
            out({'done': True})
            continue
        try:
            for r in w.handle(req):
                out(r)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            out({'status': 'error', 'req': req, 'error': '%s: %s' % (type(e).__name__, e),
                 'trace': traceback.format_exc()[-3000:]})
        out({'done': True, 'functions': sorted(CODE)})


if __name__ == '__main__':
    main(sys.argv[1:])
