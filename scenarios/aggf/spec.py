from symdb.speclib import Agg, count, total
from symdb.harness import eqv
from symdb.terms import And, Or, Not, Eq, text_code


def spec(M, schema, tier):
    def mine(r, i):
        return eqv(i['store_id'], r['id'])

    def cnt(f):
        return lambda v, r: count(v, M.StoreItem, lambda i: And(mine(r, i), f(i)))

    def tot(f):
        return lambda v, r: total(v, M.StoreItem, lambda i: And(mine(r, i), f(i)), 'amount')
    active = lambda i: Eq(i['active'].v, 1)
    age = lambda i: i['age'].v
    out = {
        'active': cnt(active),
        'adults': cnt(lambda i: age(i) >= 18),
        'named': cnt(lambda i: And(active(i), Not(Eq(i['text'].v, text_code(''))))),
        'not_five': cnt(lambda i: Not(Eq(age(i), 5))),
        'rest': cnt(lambda i: Not(And(age(i) < 10, active(i)))),
        'adult_sum': tot(lambda i: age(i) >= 18),
        'odd_sum': tot(lambda i: Not(Or(Eq(age(i), 1), Eq(age(i), 2), Eq(age(i), 3)))),
        'nocolour': cnt(lambda i: i['colour'].null),
    }

    class S(object):
        denorms = []
        aggs = [Agg(M.Store, k, f, M.StoreItem, k.endswith('sum')) for k, f in out.items()]
        keys = []
        sizes = {'aggf_store': 2, 'aggf_storeitem': 2}
        dangling = False
        extra = {}
    return S
