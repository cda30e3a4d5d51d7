from symdb.speclib import D, fwd, back, total, lookup, valid_fk
from symdb.harness import eqv
from symdb.terms import SVal
from symdb.programs import Saver


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Parent, 'child_total', lambda v, r: SVal(False, total(v, M.Child, lambda c: eqv(c['parent_id'], r['id']), 'val').v + r['val'].v),
              deps={M.Child: back('parent_id')}, self_tracked=False),
            D(M.Child, 'parent_val', lambda v, r: lookup(v, M.Parent, r['parent_id'], 'val', -1, scale=2),
              defined=valid_fk(M.Parent, 'parent_id'), deps={M.Parent: fwd('parent_id')}, self_tracked=False),
        ]
        aggs = []
        keys = []
        entry = 'request'
        sizes = {'unsafe_parent': 2, 'unsafe_child': 2}
        race_sizes = {'unsafe_parent': 1, 'unsafe_child': 1}
        savers = [Saver(M.Parent, {'val': 'val'}, ('child_total',)),
                  Saver(M.Child, {'parent_id': 'parent_id', 'val': 'val'}, ('parent_val',), refs=('parent_id',))]
        extra = {}
        no_effect = [('rel', 'unsafe_parent', 'delete'), ('rel', 'unsafe_parent', 'insert', 'mysql')]
    S.selections = [(None, None, S.denorms)]
    S.rebuild_marks = 0 if tier == 'quick' else 1
    return S
