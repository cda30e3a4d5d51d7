from symdb.speclib import D, fwd, back, total, lookup, valid_fk
from symdb.harness import eqv
from symdb.terms import And, Or, SVal


def spec(M, schema, tier):
    def pair(v, r):
        a = lookup(v, M.Person, r['doer_id'], 'val', 0, scale=2)
        b = lookup(v, M.Person, r['tester_id'], 'val', 0)
        return SVal(False, a.v + b.v)
    f1, f2 = fwd('doer_id'), fwd('tester_id')

    class S(object):
        denorms = [
            D(M.Person, 'doing', lambda v, r: total(v, M.Task, lambda c: eqv(c['doer_id'], r['id']), 'val'),
              deps={M.Task: back('doer_id')}),
            D(M.Person, 'testing', lambda v, r: total(v, M.Task, lambda c: eqv(c['tester_id'], r['id']), 'val'),
              deps={M.Task: back('tester_id')}),
            D(M.Person, 'boss_val', lambda v, r: lookup(v, M.Task, r['boss_of_id'], 'val', 0),
              defined=valid_fk(M.Task, 'boss_of_id'), deps={M.Task: fwd('boss_of_id')}),
            D(M.Task, 'pair', pair, defined=lambda v, r: And(valid_fk(M.Person, 'doer_id')(v, r),
                                                             valid_fk(M.Person, 'tester_id')(v, r)),
              deps={M.Person: lambda v, r, c: Or(f1(v, r, c), f2(v, r, c))}),
        ]
        aggs = []
        keys = []
        sizes = {'multi_person': 2, 'multi_task': 2}
        extra = {}
        no_effect = [('rel', 'multi_person', 'delete'), ('rel', 'multi_person', 'insert', 'mysql')]
    return S
