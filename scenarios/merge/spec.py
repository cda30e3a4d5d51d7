from symdb.speclib import D, back, fwd, lookup, total, valid_fk, via, linked
from symdb.harness import eqv
from symdb.terms import SVal


def spec(M, schema, tier):
    T = M.Contract

    class S(object):
        denorms = [
            D(M.Team, 'strength', lambda v, r: linked(v, T, 'team_id', r['id'], 'athlete_id', M.Athlete, 'val'),
              deps={M.Athlete: via(T, 'team_id', 'athlete_id'), T: lambda v, r, c: eqv(c['team_id'], r['id'])}),
            D(M.Team, 'payroll', lambda v, r: total(v, T, lambda c: eqv(c['team_id'], r['id']), 'pay'),
              deps={T: back('team_id')}),
            D(M.Athlete, 'income', lambda v, r: total(v, T, lambda c: eqv(c['athlete_id'], r['id']), 'pay'),
              deps={T: back('athlete_id')}),
            D(T, 'noise_copy', lambda v, r: lookup(v, M.Athlete, r['athlete_id'], 'noise', 0),
              defined=valid_fk(M.Athlete, 'athlete_id'), deps={M.Athlete: fwd('athlete_id')}),
            D(T, 'double_pay', lambda v, r: SVal(r['pay'].null, r['pay'].v * 2)),
            D(T, 'double_bonus', lambda v, r: SVal(r['bonus'].null, r['bonus'].v * 2)),
        ]
        aggs = []
        keys = []
        sizes = {'merge_team': 2, 'merge_athlete': 2, 'merge_contract': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'merge_team', e) for e in ('insert', 'delete')] + \
                    [('rel', 'merge_athlete', e) for e in ('insert', 'delete')]
    return S
