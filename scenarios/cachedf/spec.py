from symdb.programs import Past
from symdb.terms import SVal, Ite, Or, Not, Eq
from symdb.speclib import Key, fwd, back, total
from symdb.harness import eqv


def spec(M, schema, tier):
    def summary(v, r):
        found, s = v.find(M.Source, r['source_id'])
        parts = total(v, M.Part, lambda p: eqv(p['thing_id'], r['id']), 'val')
        return SVal(False, r['val'].v + Ite(found, s['val'].v * 2, 0) + parts.v)

    def val(h, n, t):
        return h.value('in' + n, t, 'val')

    def source_update(h, n):
        M.Source.objects.filter(pk=1).update(val=val(h, n, 'cachedf_source'))

    def source_save(h, n):
        for s in M.Source.objects.filter(pk=1):
            s.val = val(h, n, 'cachedf_source')
            s.save()

    def part_update(h, n):
        M.Part.objects.all().update(val=val(h, n, 'cachedf_part'))

    def part_move(h, n):
        for p in M.Part.objects.filter(pk=1):
            p.thing_id = h.ref('to' + n, 'cachedf_part', 'thing_id')
            p.save()

    def part_delete(h, n):
        M.Part.objects.filter(pk=1).delete()

    def part_create(h, n):
        for t in M.Thing.objects.filter(pk=1):
            M.Part.objects.create(thing=t, val=val(h, n, 'cachedf_part'))

    def thing_create(h, n):
        M.Thing.objects.create(val=val(h, n, 'cachedf_thing'))

    def thing_save(h, n):
        for t in M.Thing.objects.filter(pk=1):
            t.source_id = h.ref('to' + n, 'cachedf_thing', 'source_id')
            t.save()

    def past_save(h, n):
        for t in Past.model(M.Thing).objects.filter(pk=1):
            t.val = val(h, n, 'cachedf_thing')
            t.save()

    def past_create(h, n):
        Past.model(M.Thing).objects.create(val=val(h, n, 'cachedf_thing'))

    def past_part(h, n):
        for p in Past.model(M.Part).objects.select_related('thing').filter(pk=1):
            p.val = val(h, n, 'cachedf_part')
            p.save()
            p.thing.save()

    class S(object):
        denorms = []
        aggs = []
        keys = [Key(M.Thing, 'summary', {M.Source: fwd('source_id'), M.Part: back('thing_id')})]
        cached_models = [M.Thing]
        cached = [(M.Thing, 'summary', summary)]
        cache_ops = [source_update, source_save, part_update, part_move, part_delete, part_create, thing_create, thing_save]
        past_ops = [past_save, past_create, past_part]
        sizes = {'cachedf_source': 1, 'cachedf_thing': 2, 'cachedf_part': 1}
        long_sizes = {'cachedf_source': 1, 'cachedf_thing': 1, 'cachedf_part': 1}
        extra = {}

        @staticmethod
        def assume(view):
            """keys differ unless the row was inserted behind Django's back (then 0)"""
            rows = view.slots(M.Thing)
            if len(rows) < 2:
                return True
            a, b = rows[0]['summary'], rows[1]['summary']
            return Or(Not(Eq(a.v, b.v)), Eq(a.v, 0))
    return S
