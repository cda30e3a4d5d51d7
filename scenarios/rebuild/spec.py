from symdb.terms import SVal, And
from symdb.speclib import D, Links, Agg, fwd, back, total, count, valid_fk
from symdb.harness import eqv


def spec(M, schema, tier):
    def mine(r):
        return lambda p: eqv(p['owner_id'], r['id'])

    def member(v, r, p):
        return And(eqv(r['pet_id'], p['id']), p['weight'].v > 3)

    rank = D(M.Pet, 'rank', lambda v, r: SVal(False, r['weight'].v + 1))
    score = D(M.Owner, 'score', lambda v, r: total(v, M.Pet, mine(r), 'rank'), deps={M.Pet: back('owner_id')})
    patients = Links(M.Visit, 'rebuild_visit_patients', 'visit_id', 'pet_id', M.Pet, member, deps={M.Pet: fwd('pet_id')})
    n_pets = Agg(M.Owner, 'n_pets', lambda v, r: count(v, M.Pet, mine(r)), M.Pet)
    weight = Agg(M.Owner, 'weight', lambda v, r: total(v, M.Pet, mine(r), 'weight'), M.Pet, True)
    everything = [rank, score, patients, n_pets, weight]

    class S(object):
        denorms = [rank, score, patients]
        aggs = [n_pets, weight]
        keys = []
        sizes = {'rebuild_owner': 1, 'rebuild_pet': 1, 'rebuild_visit': 1, 'rebuild_visit_patients': 1}
        selections = [(None, None, everything), ('rebuild', None, everything), ('Owner', None, [score, n_pets, weight]),
                      ('rebuild.Pet', None, [rank]), ('Visit', None, [patients]), ('Owner', 'score', [score]),
                      ('rebuild.Owner', 'n_pets', [n_pets]), ('rebuild', 'weight', [weight])]
        flow_marks = 1 if tier == 'quick' else 2
        entry = 'rebuild'
        extra = {}
    return S
