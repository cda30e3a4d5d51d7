from symdb.speclib import D, Key, total
from symdb.harness import eqv
from symdb.terms import And, Eq, SVal

ID_COLUMNS = ('genback_remark.object_id', 'genback_sticker.object_id')


def spec(M, schema, tier):
    ct = schema.ct[M.Film]

    def attached(v, r, c):
        return And(Eq(r['content_type_id'].v, ct), eqv(r['object_id'], c['id']))

    def film_val(v, r):
        return SVal(False, r['own'].v + total(v, M.Film, lambda c: attached(v, r, c), 'val').v)

    class S(object):
        denorms = [D(M.Remark, 'film_val', film_val, deps={M.Film: attached}, skips={M.Film: ('note',)})]
        aggs = []
        keys = [Key(M.Sticker, 'key', {M.Film: attached}, {M.Film: ('note',)})]
        sizes = {'genback_film': 2, 'genback_remark': 2, 'genback_sticker': 2}
        dangling = False
        extra = {'genback_remark.content_type_id': (ct, ct + 1), 'genback_remark.object_id': (1, 3),
                 'genback_sticker.content_type_id': (ct, ct + 1), 'genback_sticker.object_id': (1, 3)}
    return S
