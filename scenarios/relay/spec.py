from symdb.speclib import D, fwd, lookup, valid_fk


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Mid, 'd', lambda v, r: lookup(v, M.Src, r['src_id'], 'val', 0, add=1),
              defined=valid_fk(M.Src, 'src_id'), deps={M.Src: fwd('src_id')}),
            D(M.Top, 'e', lambda v, r: lookup(v, M.Mid, r['mid_id'], 'd', 0, add=2),
              defined=valid_fk(M.Mid, 'mid_id'), deps={M.Mid: fwd('mid_id')}),
            D(M.Top, 'f', lambda v, r: lookup(v, M.Src, r['src_id'], 'val', 0, add=3),
              defined=valid_fk(M.Src, 'src_id'), deps={M.Src: fwd('src_id')}),
        ]
        aggs = []
        keys = []
        sizes = {'relay_src': 1, 'relay_mid': 1, 'relay_top': 2}
        flow_marks = 3
        extra = {}
    return S
