from symdb.speclib import D, fwd, lookup, valid_fk


def spec(M, schema, tier):
    def level(n):
        up = M.ALL[n - 1]
        return D(M.ALL[n], 'd', lambda v, r: lookup(v, up, r['up_id'], 'val' if n == 1 else 'd', 0, add=n),
                 defined=valid_fk(up, 'up_id'), deps={up: fwd('up_id')})

    class S(object):
        denorms = [level(n) for n in range(1, M.LEVELS + 1)]
        aggs = []
        keys = []
        sizes = dict((m._meta.db_table, 1) for m in M.ALL)
        cube = dict((m._meta.db_table, 1) for m in M.ALL)
        flow_marks = 1
        extra = {}
    return S
