from symdb.terms import SVal
from symdb.speclib import D, Links, valid_fk
from symdb.harness import eqv
from symdb.programs import Saver


def spec(M, schema, tier):
    ok = valid_fk(M.Group, 'group_id')
    given = {'group_id': 'group_id', 'val': 'val'}
    links = ('savesinh_base_circle',)

    class S(object):
        denorms = [
            D(M.Base, 'twice', lambda v, r: SVal(False, r['val'].v * 2)),
            Links(M.Base, 'savesinh_base_circle', 'base_id', 'group_id', M.Group,
                  lambda v, r, g: eqv(r['group_id'], g['id']), defined=ok),
            D(M.Derived, 'thrice', lambda v, r: SVal(False, r['more'].v * 3)),
        ]
        aggs = []
        keys = []
        sizes = {'savesinh_group': 1, 'savesinh_base': 1, 'savesinh_base_circle': 1, 'savesinh_derived': 1}
        savers = [Saver(M.Base, given, ('twice',), refs=('group_id',), related=links),
                  Saver(M.Alias, given, ('twice',), refs=('group_id',), related=links),
                  Saver(M.Derived, {'more': 'more'}, ('thrice',), related=links + ('savesinh_base',), up=('savesinh_base', given))]
        extra = {}
    return S
