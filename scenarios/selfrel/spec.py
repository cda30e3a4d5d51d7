from symdb.speclib import D, fwd, back, total, lookup, valid_fk
from symdb.harness import eqv


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Node, 'up', lambda v, r: lookup(v, M.Node, r['parent_id'], 'val', 0, add=1),
              defined=valid_fk(M.Node, 'parent_id'), deps={M.Node: fwd('parent_id')}),
            D(M.Node, 'down', lambda v, r: total(v, M.Node, lambda c: eqv(c['parent_id'], r['id']), 'val'),
              deps={M.Node: back('parent_id')}),
        ]
        aggs = []
        keys = []
        sizes = {'selfrel_node': 3}
        flow_sizes = {'selfrel_node': 2} if tier == 'quick' else None
        extra = {}
    return S
