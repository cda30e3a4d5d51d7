"""Writes MANIFEST.json from the property list and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symdb import registry  # noqa: E402

STMT = ("Real trigger generation, symbolic execution of the generated triggers on all table states within the row bounds, "
        "SMT verdict per statement kind; inductive over histories. Assumes the SQL model, which is validated against real "
        "SQLite, PostgreSQL and MySQL on sampled runs each time.")
FLOW = ("Real library and ORM code executed symbolically on all table states within the row bounds, every path explored, "
        "SMT verdict per goal; every counterexample is replayed on a real database. Assumes the SQL and locking model, "
        "validated on sampled runs each time.")
OTHER = getattr(registry, 'NOTES', {})


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in registry.SCENARIOS:
            checks.append({
                'property': i,
                'quick_cmd': './run.py %s --tier quick' % i,
                'thorough_cmd': './run.py %s --tier thorough' % i,
                'technique': 'symbolic execution of the real code with an SMT solver',
                'level': registry.LEVEL,
                'level_note': OTHER.get(i) or (FLOW if i in registry.FLOWS else STMT),
                'evidence_file': 'evidence/%s.json' % i,
            })
        else:
            na.append({'property': i, 'reason': registry.NOT_APPLICABLE.get(i, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks}
    if na:
        m['not_applicable'] = na
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
