from symdb.terms import SVal
from symdb.speclib import D


def spec(M, schema, tier):
    class S(object):
        denorms = [
            D(M.Falsy, 'twice', lambda v, r: SVal(False, r['val'].v * 2)),
            D(M.Hidden, 'thrice', lambda v, r: SVal(False, r['val'].v * 3)),
            D(M.Named, 'more', lambda v, r: SVal(False, r['val'].v + 1)),
        ]
        aggs = []
        keys = []
        sizes = {'odd_falsy': 2, 'odd_hidden': 1, 'odd_named': 1}
        extra = {}
        selections = [(None, None, denorms)]
        rebuild_marks = 1
    return S
