from symdb.speclib import D, fwd, lookup, valid_fk
from symdb.terms import SVal, And


def spec(M, schema, tier):
    def place(v, r, link):
        return lookup(v, M.Place, r[link], 'val', 0).v

    def seats(v, r):
        return lookup(v, M.Cafe, r['cafe_id'], 'seats', 0).v

    def ok(v, r):
        return And(valid_fk(M.Cafe, 'cafe_id')(v, r), valid_fk(M.Place, 'cafe_id')(v, r))
    cafe = {M.Cafe: fwd('cafe_id', 'place_ptr_id')}

    class S(object):
        denorms = [
            D(M.Cafe, 'size', lambda v, r: SVal(False, place(v, r, 'place_ptr_id') + r['seats'].v), inherited=[M.Place]),
            D(M.Visit, 'place_val', lambda v, r: SVal(False, place(v, r, 'cafe_id')), defined=ok, deps=cafe, inherited=[M.Place]),
            D(M.Corner, 'both', lambda v, r: SVal(False, place(v, r, 'cafe_id') + seats(v, r)), defined=ok, deps=cafe,
              inherited=[M.Place]),
        ]
        aggs = []
        keys = []
        sizes = {'parents_place': 2, 'parents_cafe': 2, 'parents_visit': 2, 'parents_corner': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'parents_cafe', 'delete'), ('rel', 'parents_cafe', 'insert')]
    return S
