import datetime

from symdb.speclib import Agg, count, total
from symdb.harness import eqv, EPOCH
from symdb.terms import And, Not, Eq, text_code


def spec(M, schema, tier):
    def label(i, text):
        return Eq(i['label'].v, text_code(text))

    def cnt(f):
        return lambda v, r: count(v, M.Good, lambda i: And(eqv(i['depot_id'], r['id']), f(i)))
    day = (datetime.date(2001, 2, 3) - EPOCH).days
    recent = lambda i: And(i['day'].v >= day, Not(label(i, '%s')))

    class S(object):
        denorms = []
        aggs = [
            Agg(M.Depot, 'quoted', cnt(lambda i: label(i, "it's \"5%%\" \\ 'n")), M.Good),
            Agg(M.Depot, 'unlabelled', cnt(lambda i: label(i, '')), M.Good),
            Agg(M.Depot, 'recent', lambda v, r: total(
                v, M.Good, lambda i: And(eqv(i['depot_id'], r['id']), recent(i)), 'amount'), M.Good, True),
        ]
        keys = []
        sizes = {'aggp_depot': 2, 'aggp_good': 2}
        dangling = False
        extra = {}
    return S
