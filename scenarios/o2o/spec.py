from symdb.speclib import D, fwd, back, total, lookup, valid_fk
from symdb.harness import eqv


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Owner, 'card_val', lambda v, r: total(v, M.Card, lambda c: eqv(c['owner_id'], r['id']), 'val'),
              deps={M.Card: back('owner_id')}),
            D(M.Card, 'owner_val', lambda v, r: lookup(v, M.Owner, r['owner_id'], 'val', None),
              defined=valid_fk(M.Owner, 'owner_id'), deps={M.Owner: fwd('owner_id')}),
        ]
        aggs = []
        keys = []
        sizes = {'o2o_owner': 2, 'o2o_card': 2}
        extra = {}
        no_effect = [('rel', 'o2o_owner', 'delete'), ('rel', 'o2o_owner', 'insert', 'mysql')]
    return S
