from symdb.speclib import D, fwd, lookup, valid_fk


def spec(M, schema, tier):
    def column(c):
        return M.Source._meta.get_field(c).column

    def copy(c):
        return lambda v, r: lookup(v, M.Source, r['source_id'], column(c), None)

    def own(c):
        return lambda v, r: r[column(c)]

    class S(object):
        denorms = [D(M.Copy, 'c_' + c, copy(c), defined=valid_fk(M.Source, 'source_id'), deps={M.Source: fwd('source_id')})
                   for c in M.COLS] + [D(M.Own, 'c_' + c, own(c)) for c in M.COLS]
        aggs = []
        keys = []
        sizes = {'coltypes_source': 2, 'coltypes_copy': 2, 'coltypes_own': 2}
        dangling = False
        extra = {}
        per_denorm = True
        no_effect = [('rel', 'coltypes_source', 'delete'), ('rel', 'coltypes_source', 'insert')]
    return S
