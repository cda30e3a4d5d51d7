"""Turns obligation results into a verdict, replays, evidence and exit status."""
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')


def load_known(prop):
    out = []
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        w = line.strip().split(' ', 3)
        if w[:2] == ['known:', 'property=%s' % prop]:
            out.append({'property': prop, 'id': w[2].split('=')[1], 'what': w[3]})
    return out


def short(desc):
    return json.dumps(dict((k, v) for k, v in (desc or {}).items() if k not in ('sizes', 'dangling')))


def bounds(results):
    """row bounds per scenario, taken from the obligations that ran"""
    out = {}
    for r in results:
        d = r.get('desc') or {}
        for t, n in (d.get('sizes') or {}).items():
            b = out.setdefault(r['app'], {})
            b[t] = max(n, b.get(t, 0))
        if d.get('ob') == 'flow':
            b = out.setdefault(r['app'], {})
            b['marks'] = max(b.get('marks', 0), d.get('marks') or 0)
    return dict((app, ', '.join('%s<=%s' % x for x in sorted(b.items()))) for app, b in out.items())


def conclude(run, verbose=False):
    prop, tier = run.prop, run.tier
    run.symbolic()
    stats = {}
    errors = []
    violated = []
    validate = []
    known = []
    incomplete = []
    samples = []
    for r in run.results:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        st = r.get('status')
        if st == 'error':
            errors.append('%s/%s %s: %s' % (r.get('app'), r.get('dialect'), r.get('error'), short(r.get('desc'))))
            if verbose:
                print((r.get('trace') or '')[-600:])
        elif st == 'violated':
            violated.append(r)
            if verbose and r.get('trace'):
                print(r['trace'][-400:])
        else:
            if r.get('vacuous'):
                errors.append('%s/%s %s: vacuous obligation' % (r['app'], r['dialect'], short(r['desc'])))
            if r.get('incomplete'):
                incomplete.append('%s/%s %s' % (r['app'], r['dialect'], short(r['desc'])))
            for w in r.get('witnesses', ()):
                validate.append((r, 'validate', w))
        for k in r.get('known', ()):
            known.append((r, k))
        if verbose:
            print('%-10s %-10s %-8s %5.2fs %s %s' % (r.get('app'), r.get('dialect'), st, r.get('wall', 0),
                                                     short(r.get('desc')), r.get('what', r.get('error', ''))), r.get('note', ''))
    # parts of one exploration must have split the same set of prefixes, and one of them must have done something
    parts = {}
    for r in run.results:
        if 'frontier' in r:
            parts.setdefault((r['app'], r['dialect'], json.dumps(r['desc'], sort_keys=True)), []).append(r)
    for (app, d, desc), rs in parts.items():
        if len(set(r['frontier'] for r in rs)) > 1:
            errors.append('%s/%s the parts of an exploration disagree: %s' % (app, d, short(rs[0]['desc'])))
        if not sum(r.get('hit', 1) for r in rs):
            errors.append('%s/%s %s: vacuous obligation' % (app, d, short(rs[0]['desc'])))
    # replay counterexamples against the real databases
    confirmed = []
    if violated:
        items = [(r, 'replay', r['case']) for r in violated]
        for (r, mode, case), ans in zip(items, run.replay_all(items)):
            if ans is None or ans.get('status') == 'error':
                errors.append('replay of a counterexample failed: %s/%s %s: %s' % (
                    r['app'], r['dialect'], short(r['desc']), (ans or {}).get('error')))
                if verbose and ans:
                    print((ans.get('trace') or '')[-400:])
            elif ans.get('violated'):
                confirmed.append((r, ans))
            else:
                errors.append('counterexample did not reproduce: %s/%s %s: %s (%s)' % (
                    r['app'], r['dialect'], short(r['desc']), r.get('what'), ans.get('note', '')))
                if verbose:
                    print(json.dumps(r['case'], indent=1)[:6000])
                    print(ans)
    # validate sampled witnesses
    validated = 0
    limit = 400 if tier == 'thorough' else 120
    if validate and not confirmed:
        if len(validate) > limit:
            step = len(validate) / float(limit)
            validate = [validate[int(i * step)] for i in range(limit)]
        for (r, mode, case), ans in zip(validate, run.replay_all(validate)):
            if ans is None or ans.get('status') == 'error':
                errors.append('witness replay failed: %s/%s %s: %s' % (r['app'], r['dialect'], short(r['desc']),
                                                                       (ans or {}).get('error')))
                if verbose and ans:
                    print((ans.get('trace') or '')[-400:])
            elif ans.get('violated'):
                # the database itself violates the property on this input
                confirmed.append((dict(r, case=case, what='witness'), ans))
            elif ans.get('mismatch'):
                errors.append('model and database disagree: %s/%s %s: %s' % (
                    r['app'], r['dialect'], short(r['desc']), ans['mismatch']))
                if verbose:
                    print(json.dumps(case, indent=1)[:4000])
            else:
                validated += 1
                if len(samples) < 3:
                    samples.append({'scenario': r['app'], 'engine': r['dialect'], 'obligation': r['desc'],
                                    'op': case.get('op')})
    known_confirmed = []
    if known:
        items = [(r, 'replay', k['case']) for r, k in known]
        for ((r, mode, case), ans), (_, k) in zip(zip(items, run.replay_all(items)), known):
            if ans and ans.get('violated'):
                known_confirmed.append((k['id'], r, ans))
            else:
                errors.append('known finding %s did not reproduce: %s/%s %s: %s' % (k['id'], r['app'], r['dialect'], short(r['desc']), ans))
                if verbose:
                    print(json.dumps(case))
    listed = dict((k['id'], k) for k in load_known(prop))
    for kid in sorted(set(k for k, _, _ in known_confirmed)):
        if kid in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[kid]['what']))
        else:
            errors.append('finding %s is not in known_findings.txt' % kid)

    n = len([r for r in run.results if 'desc' in r])
    if n == 0:
        errors.append('no obligations were decided')
    os.makedirs(EVID, exist_ok=True)
    paths = []
    for i, (r, ans) in enumerate(confirmed[:10]):
        path = os.path.join(EVID, 'replay_%s_%d.json' % (prop, i + 1))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'scenario': r['app'], 'engine': r['dialect'], 'obligation': r['desc'],
                       'case': r['case'], 'observed': ans['violated']}, f, indent=1)
        paths.append(path)
    from symdb import registry
    functions = sorted(run.functions)
    ev = {
        'property': prop, 'tier': tier, 'seed': run.seed, 'level': registry.LEVEL,
        'coverage': {
            'explanation': registry.explain(prop, tier),
            'obligations': stats.get('obligations', 0),
            'obligation_groups': n,
            'queries_discharged': stats.get('queries', 0),
            'queries_unsat': stats.get('unsat', 0),
            'queries_sat': stats.get('sat', 0),
            'solver_time_s': round(stats.get('solver_s', 0), 2),
            'paths': stats.get('paths', 0),
            'path_decisions': stats.get('decisions', 0),
            'states': stats.get('obligations', 0),
            'transitions': stats.get('paths', 0) + n,
            'traces_validated_against_impl': validated + len(confirmed) + len(known_confirmed),
            'samples': samples or ([{'violation': ans['violated']} for _, ans in confirmed[:3]]) or [{'note': 'none'}],
            'functions_encoded': functions,
            'bounds': bounds(run.results),
            'scenarios': sorted(set('%s/%s' % (r.get('app'), r.get('dialect')) for r in run.results)),
            'incomplete_explorations': incomplete,
        },
        'wall_s': round(time.time() - run.t0, 2),
        'assumptions': registry.ASSUMPTIONS,
        'violations': [ans['violated'] for _, ans in confirmed],
    }
    with open(os.path.join(EVID, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if incomplete and not confirmed:
        errors.append('%d explorations did not finish within the budget, e.g. %s' % (len(incomplete), incomplete[0]))
    if confirmed:
        for (r, ans), path in list(zip(confirmed, paths)):
            print('%s/%s %s' % (r['app'], r['dialect'], ans['violated']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:20]:
            print('ERROR %s' % e)
        print('ERROR %s: inconclusive, %d problem(s)' % (prop, len(errors)))
        return 2
    print('%s held: %d obligations in %d groups, %d queries (%d unsat), solver %.1f s, %d paths, '
          '%d traces validated on real databases, wall %.1f s' % (
              prop, stats.get('obligations', 0), n, stats.get('queries', 0), stats.get('unsat', 0),
              stats.get('solver_s', 0), stats.get('paths', 0), validated + len(known_confirmed), time.time() - run.t0))
    return 0
