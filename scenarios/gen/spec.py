from symdb.speclib import D, generic, gtotal

ID_COLUMNS = ('gen_tag.object_id',)


def spec(M, schema, tier):
    cts = sorted([schema.ct[M.Book], schema.ct[M.Film], schema.ct[M.Tag]])
    assert cts[-1] - cts[0] == 2

    class S(object):
        denorms = [
            D(M.Book, 'tag_total', lambda v, r: gtotal(v, M.Tag, M.Book, r, 'val'), deps={M.Tag: generic(M.Book)}),
            D(M.Film, 'tag_total', lambda v, r: gtotal(v, M.Tag, M.Film, r, 'val', 3), deps={M.Tag: generic(M.Film)}),
        ]
        aggs = []
        keys = []
        sizes = {'gen_book': 2, 'gen_film': 2, 'gen_tag': 3}
        flow_sizes = {'gen_book': 1, 'gen_film': 1, 'gen_tag': 2} if tier == 'quick' else None
        dangling = False
        extra = {'gen_tag.content_type_id': (cts[0], cts[-1]), 'gen_tag.object_id': (1, 3)}
    return S
