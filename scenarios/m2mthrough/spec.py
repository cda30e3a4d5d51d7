from symdb.speclib import D, via, linked
from symdb.harness import eqv


def spec(M, schema, tier):
    T = M.Membership
    F = M.Player.friends.through

    class S(object):
        denorms = [
            D(M.Club, 'strength', lambda v, r: linked(v, T, 'club_id', r['id'], 'player_id', M.Player, 'val'),
              deps={M.Player: via(T, 'club_id', 'player_id'), T: lambda v, r, c: eqv(c['club_id'], r['id'])},
              skips={T: ('since', 'id')}),
            D(M.Player, 'club_total', lambda v, r: linked(v, T, 'player_id', r['id'], 'club_id', M.Club, 'val'),
              deps={M.Club: via(T, 'player_id', 'club_id'), T: lambda v, r, c: eqv(c['player_id'], r['id'])},
              skips={T: ('since', 'id')}),
            D(M.Player, 'friend_total',
              lambda v, r: linked(v, F, 'from_player_id', r['id'], 'to_player_id', M.Player, 'val'),
              deps={M.Player: via(F, 'from_player_id', 'to_player_id'),
                    F: lambda v, r, c: eqv(c['from_player_id'], r['id'])}),
            D(M.Player, 'fan_total',
              lambda v, r: linked(v, F, 'to_player_id', r['id'], 'from_player_id', M.Player, 'val'),
              deps={M.Player: via(F, 'to_player_id', 'from_player_id'),
                    F: lambda v, r, c: eqv(c['to_player_id'], r['id'])}),
        ]
        aggs = []
        keys = []
        sizes = {'m2mthrough_club': 2, 'm2mthrough_player': 2, 'm2mthrough_membership': 2,
                 'm2mthrough_player_friends': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'm2mthrough_club', 'insert'), ('rel', 'm2mthrough_club', 'delete'),
                     ('rel', 'm2mthrough_player', 'insert'), ('rel', 'm2mthrough_player', 'delete')]
    return S
