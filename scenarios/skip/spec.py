from symdb.speclib import D, back, fwd, lookup, total, valid_fk
from symdb.harness import eqv
from symdb.terms import SVal


def spec(M, schema, tier):
    def post_val(v, r):
        a = lookup(v, M.Post, r['post_id'], 'val', 0)
        return SVal(False, a.v + r['own'].v)

    class S(object):
        denorms = [
            D(M.Note, 'post_val', post_val, defined=valid_fk(M.Post, 'post_id'), deps={M.Post: fwd('post_id')},
              skips={M.Post: ('seen',)}, self_skip=('stamp',)),
            D(M.Both, 'own_val', lambda v, r: SVal(False, r['own'].v + 1), self_skip=('stamp', 'touched', 'post_id', 'other_column')),
            D(M.Owner, 'total', lambda v, r: total(v, M.Thing, lambda c: eqv(c['owner_id'], r['id']), 'val'),
              deps={M.Thing: back('owner_id')}, skips={M.Thing: ('weight', 'colour')}),
        ]
        aggs = []
        keys = []
        sizes = {'skip_post': 2, 'skip_note': 2, 'skip_both': 2, 'skip_owner': 2, 'skip_thing': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'skip_post', e) for e in ('insert', 'delete')] + \
                    [('quiet', 'skip_post', 'insert'), ('quiet', 'skip_post', 'delete'), ('quiet', 'skip_note', 'delete'),
                     ('quiet', 'skip_both', 'delete'), ('quiet', 'skip_owner', 'delete')]
    return S
