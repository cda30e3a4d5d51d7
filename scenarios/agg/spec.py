from symdb.speclib import Agg, count, total
from symdb.harness import eqv
from symdb.programs import Saver


def spec(M, schema, tier):
    def by(c):
        return lambda v, r: count(v, M.Item, lambda i: eqv(i[c], r['id']))

    def amount(c, col):
        return lambda v, r: total(v, M.Item, lambda i: eqv(i[c], r['id']), col)

    class S(object):
        denorms = []
        aggs = [
            Agg(M.Shelf, 'n_items', by('shelf_id'), M.Item),
            Agg(M.Shelf, 'n_spare', by('spare_of_id'), M.Item),
            Agg(M.Box, 'n_items', by('box_id'), M.Item),
            Agg(M.Shelf, 'weight', amount('shelf_id', 'weight'), M.Item, True),
            Agg(M.Shelf, 'bonus', amount('spare_of_id', 'bonus'), M.Item, True),
            Agg(M.Box, 'total', amount('box_id', 'price'), M.Item, True),
        ]
        keys = []
        sizes = {'agg_shelf': 2, 'agg_box': 2, 'agg_item': 3}
        flow_sizes = {'agg_shelf': 1, 'agg_box': 1, 'agg_item': 2}
        race_sizes = {'agg_shelf': 1, 'agg_box': 1, 'agg_item': 2}
        savers = [Saver(M.Shelf, {'val': 'val'}, ('n_items', 'weight')), Saver(M.Box, {}, ('n_items', 'total'))]
        dangling = False
        extra = {}
    S.selections = [(None, None, S.aggs)]
    S.rebuild_marks = 0 if tier == 'quick' else 1
    S.rebuild_sizes = {'agg_shelf': 2, 'agg_box': 2, 'agg_item': 2}
    return S
