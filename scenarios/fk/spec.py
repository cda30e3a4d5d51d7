from symdb.speclib import D, Agg, Key, fwd, back, via, total, count, lookup, valid_fk
from symdb.harness import eqv


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Parent, 'child_total', lambda v, r: total(v, M.Child, lambda c: eqv(c['parent_id'], r['id']), 'val'),
              deps={M.Child: back('parent_id')}),
            D(M.Child, 'parent_val', lambda v, r: lookup(v, M.Parent, r['parent_id'], 'val', -1, scale=2),
              defined=valid_fk(M.Parent, 'parent_id'), deps={M.Parent: fwd('parent_id')}),
        ]
        aggs = []
        keys = []
        sizes = {'fk_parent': 2, 'fk_child': 2}
        race_sizes = {'fk_parent': 1, 'fk_child': 1}
        extra = {}
        no_effect = [('rel', 'fk_parent', 'delete'), ('rel', 'fk_parent', 'insert', 'mysql')]
    S.selections = [(None, None, S.denorms)]
    S.rebuild_marks = 0 if tier == 'quick' else 1
    return S
