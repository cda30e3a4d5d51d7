from symdb.speclib import D, Agg, Key, back, fwd, count, total, lookup, valid_fk
from symdb.harness import eqv


def spec(M, schema, tier):
    def books(r):
        return lambda b: eqv(b['on_shelf'], r['shelf_code'])

    class S(object):
        denorms = [
            D(M.Desk, 'room_val', lambda v, r: lookup(v, M.Room, r['room_id'], 'val', -1, key='code'),
              defined=valid_fk(M.Room, 'room_id', 'code'), deps={M.Room: fwd('room_id', 'code')}),
            D(M.Team, 'points', lambda v, r: total(v, M.Player, lambda p: eqv(p['team_id'], r['code']), 'points'),
              deps={M.Player: back('team_id', 'code')}),
        ]
        aggs = [
            Agg(M.Shelf, 'n_books', lambda v, r: count(v, M.Book, books(r)), M.Book),
            Agg(M.Shelf, 'pages', lambda v, r: total(v, M.Book, books(r), 'pages'), M.Book, True),
        ]
        keys = [
            Key(M.Desk, 'fwd_key', {M.Room: fwd('room_id', 'code')}),
            Key(M.Shelf, 'back_key', {M.Book: back('on_shelf', 'shelf_code')}),
        ]
        sizes = {'tofield_room': 2, 'tofield_desk': 2, 'tofield_shelf': 2, 'tofield_book': 2,
                 'tofield_team': 2, 'tofield_player': 2}
        dangling = False
        extra = {'tofield_room.code': (1, 3), 'tofield_shelf.shelf_code': (1, 3), 'tofield_team.code': (1, 3)}
        no_effect = [(k, 'tofield_room', e) for k in ('rel', 'key') for e in ('insert', 'delete')]
    return S
