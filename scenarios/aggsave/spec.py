from symdb.speclib import Agg, count, total
from symdb.harness import eqv
from symdb.programs import Saver


def spec(M, schema, tier):
    class S(object):
        denorms = []
        aggs = [
            Agg(M.Rack, 'n', lambda v, r: count(v, M.Slot, lambda i: eqv(i['rack_id'], r['id'])), M.Slot),
            Agg(M.Tray, 'total', lambda v, r: total(v, M.Slot, lambda i: eqv(i['tray_id'], r['id']), 'size'), M.Slot, True),
            Agg(M.BigTray, 'n_big', lambda v, r: count(v, M.Slot, lambda i: eqv(i['big_id'], r['tray_ptr_id'])), M.Slot),
        ]
        keys = []
        sizes = {'aggsave_rack': 2, 'aggsave_tray': 2, 'aggsave_bigtray': 2, 'aggsave_slot': 2}
        flow_sizes = race_sizes = {'aggsave_rack': 1, 'aggsave_tray': 1, 'aggsave_bigtray': 1, 'aggsave_slot': 1}
        race_tables = ('aggsave_slot',)
        savers = [Saver(M.Rack, {'hidden': 'hidden'}, ('n',)), Saver(M.Tray, {'val': 'val'}, ('total',)),
                  Saver(M.BigTray, {'extra': 'extra'}, ('n_big',), related=('aggsave_tray',))]
        dangling = False
        extra = {}
    return S
