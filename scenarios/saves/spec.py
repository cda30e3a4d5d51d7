from symdb.terms import And, Or, Not, SIte, SVal, Implies, const, Eq, text_code
from symdb.speclib import D, Links, fwd, valid_fk
from symdb.harness import eqv
from symdb.programs import Saver


def spec(M, schema, tier):
    schema.texts = ['big', 'small']

    def score(v, r):
        found, g = v.find(M.Group, r['group_id'])
        return SIte(found, SVal(False, r['val'].v + g['val'].v), r['val'])

    NULL = SVal(True, 0)
    ok = valid_fk(M.Group, 'group_id')

    def member(v, r, g):
        return And(eqv(r['group_id'], g['id']), Not(Eq(r['val'].v, 3)))

    class S(object):
        denorms = [
            D(M.Person, 'score', score, defined=ok, deps={M.Group: fwd('group_id')}),
            D(M.Person, 'spare', lambda v, r: SIte(r['group_id'].null, NULL, SVal(False, r['val'].v * 2))),
            D(M.Person, 'size', lambda v, r: SIte(r['val'].v > 10, const('big'), const('small'))),
            D(M.Person, 'home_id', lambda v, r: SIte(r['val'].v > 0, r['group_id'], NULL), defined=ok),
            D(M.Person, 'base_id', lambda v, r: SIte(r['val'].v < 5, r['group_id'], NULL), defined=ok),
            Links(M.Person, 'saves_person_circle', 'person_id', 'group_id', M.Group, member, defined=ok),
        ]
        aggs = []
        keys = []
        sizes = {'saves_group': 2, 'saves_person': 1, 'saves_person_circle': 1}
        race_sizes = {'saves_group': 1, 'saves_person': 1, 'saves_person_circle': 1}
        race_tables = ('saves_group', 'saves_person')
        # a new person's six computed fields multiply the paths beyond the budget; fk covers inserts
        no_effect = [('race', 'saves_person', 'insert')] + ([('race', 'saves_group', 'insert'), ('race', 'saves_person', 'update')] if tier == 'quick' else [])
        savers = [Saver(M.Person, {'group_id': 'group_id', 'val': 'val'}, ('score', 'spare', 'size'),
                        refs=('group_id',), related=('saves_person_circle',))]
        flow_marks = 1 if tier == 'quick' else 2
        extra = {}
    return S
