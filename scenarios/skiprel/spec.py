from symdb.speclib import D, Key, via, generic, gtotal, linked
from symdb.harness import eqv
from symdb.terms import SVal

ID_COLUMNS = ('skiprel_mark.object_id',)


def spec(M, schema, tier):
    T, P = M.Song.groups.through, M.Page.groups.through
    cts = sorted([schema.ct[M.Song], schema.ct[M.Page]])
    skips = {M.Group: ('note', 'seen'), M.Mark: ('note', 'seen')}

    def sum_up(v, r):
        a, b = linked(v, T, 'song_id', r['id'], 'group_id', M.Group, 'val'), gtotal(v, M.Mark, M.Song, r, 'val')
        return SVal(False, a.v + b.v)

    class S(object):
        denorms = [
            D(M.Song, 'total', sum_up, skips=skips,
              deps={T: lambda v, r, c: eqv(c['song_id'], r['id']), M.Group: via(T, 'song_id', 'group_id'), M.Mark: generic(M.Song)}),
        ]
        aggs = []
        keys = [
            Key(M.Page, 'key', {P: lambda v, r, c: eqv(c['page_id'], r['id']), M.Group: via(P, 'page_id', 'group_id'),
                                M.Mark: generic(M.Page)}, skips),
        ]
        sizes = {'skiprel_group': 2, 'skiprel_song': 2, 'skiprel_page': 2, 'skiprel_mark': 2, 'skiprel_song_groups': 2, 'skiprel_page_groups': 2}
        dangling = False
        extra = {'skiprel_mark.content_type_id': (cts[0], cts[-1]), 'skiprel_mark.object_id': (1, 3)}
        # linked rows cannot be deleted and new ones have no links
        no_effect = [(k, 'skiprel_group', e) for k in ('rel', 'key') for e in ('insert', 'delete')]
    return S
