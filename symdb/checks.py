"""Which scenarios and obligations decide which property."""
from . import obs, flow, life, resolve, programs

EVENTS = ('insert', 'update', 'delete')

def no_effect(ctx, spec, kind, t, e):
    """combinations in which the property is trivially true (listed per scenario)"""
    ne = getattr(spec, 'no_effect', ())
    return (kind, t, e) in ne or (kind, t, e, ctx.schema.dialect) in ne


def stmt_plan(ctx, spec, kind, tier):
    out = []
    tables = getattr(spec, 'tables', None) or list(spec.sizes)
    for t in tables:
        for e in EVENTS:
            if no_effect(ctx, spec, kind, t, e):
                continue
            if kind == 'own' and e == 'delete':
                continue
            if kind == 'agg' and t not in [ctx.schema.table(a.source) for a in spec.aggs]:
                continue
            ob = obs.StmtOb(ctx, spec, kind, t, e, n_insert=2 if e == 'insert' else 1)
            if ob.applicable():
                out.append(ob)
    return out


def inherited_plan(ctx, spec):
    tables = set(ctx.schema.table(m) for d in spec.denorms for m in d.inherited)
    return [obs.StmtOb(ctx, spec, 'inherited', t, 'update') for t in sorted(tables)]


def only_aggs(spec, sums):
    """targets of the count or of the sum property; the others stay part of the state"""
    spec.agg_targets = [a for a in spec.aggs if a.summed == sums]
    spec.no_effect = list(getattr(spec, 'no_effect', ())) + list(getattr(spec, 'no_effect_on_%s' % ('sums' if sums else 'counts'), ()))
    return spec


def plan(prop, ctx, spec, tier):
    if prop in ('C01', 'C02', 'C03'):
        return stmt_plan(ctx, spec, 'rel', tier)
    if prop == 'C04':
        return stmt_plan(ctx, spec, 'own', tier)
    if prop == 'C08':
        return stmt_plan(ctx, only_aggs(spec, False), 'agg', tier)
    if prop == 'C09':
        return stmt_plan(ctx, only_aggs(spec, True), 'agg', tier)
    if prop == 'C12':
        return stmt_plan(ctx, spec, 'key', tier) + [
            flow.FlowOb(ctx, spec, p, goal='keyed', marks=0) for p in ('save_loaded', 'save_new', 'save_pk', 'save_copy')
            if getattr(spec, 'savers', None)]
    if prop in ('C18', 'C21'):
        return inherited_plan(ctx, spec) + sum([stmt_plan(ctx, spec, k, tier) for k in ('own', 'rel', 'agg', 'key')], [])
    if prop == 'C13':
        return stmt_plan(ctx, spec, 'quiet', tier)
    if prop == 'C16':
        return [resolve.ResolveOb(ctx, spec, n) for n in (1, 2, 3)[:3 if tier == 'thorough' else 2]]
    if prop == 'C15':
        if len(ctx.template.triggers) > 12 and tier == 'quick':
            return [life.LifeOb(ctx, spec, 1)]
        return [life.LifeOb(ctx, spec, 1), life.LifeOb(ctx, spec, 1, True), life.LifeOb(ctx, spec, 2)] + (
            [life.LifeOb(ctx, spec, 1, True, every=True), life.LifeOb(ctx, spec, 2, True), life.LifeOb(ctx, spec, 3)] if tier != 'quick' and len(ctx.template.triggers) <= 12 else [])
    return flow_plan(ctx, spec, prop, tier)


def flow_plan(ctx, spec, prop, tier):
    def F(*a, **kw):
        return [flow.FlowOb(ctx, spec, *a, **kw)]
    sizes = getattr(spec, 'race_sizes', None)
    cube = getattr(spec, 'cube', None)
    if prop == 'C05':
        return F('flush', marks=getattr(spec, 'flow_marks', 2), cube=cube)
    if prop == 'C06':
        marks = getattr(spec, 'flow_marks', 2)
        return F('flush', 'crash', marks=marks) + F('flush', 'error', goal='survive', sizes=sizes, marks=1) + \
            F('flush', 'raise', goal='survive', sizes=sizes, marks=marks) + \
            F('flush', 'crash', outer=True, sizes=sizes, marks=1) + \
            F('flush', 'error', outer=True, goal='survive', sizes=sizes, marks=1)
    if prop == 'C07':
        return sum([F('flush', 'race', race=(t, e), goal='settled', sizes=sizes, marks=1) for t in
                    getattr(spec, 'race_tables', sizes) for e in EVENTS if not no_effect(ctx, spec, 'race', t, e)], [])
    if prop == 'C10':
        out = sum([F(p, goal='kept', marks=0) for p in programs.SAVES], [])
        for t in getattr(spec, 'race_tables', sizes):
            for e in EVENTS:
                for p in ('save_loaded', 'save_new', 'save_pk', 'save_fields'):
                    out += F(p, 'race', race=(t, e), goal='kept', sizes=sizes, marks=0)
        return out
    if prop == 'C11':
        return sum([F(p, goal='computed', marks=0 if tier == 'quick' else 1, sizes=getattr(spec, 'save_sizes', None))
                    for p in ('save_loaded', 'save_new', 'save_pk', 'save_copy')], [])
    if prop == 'C17':
        out = F('cached_reads', goal='current', marks=0)
        if tier != 'quick':
            out += F('cached_reads2', goal='current', marks=0, sizes=spec.long_sizes)
        return out
    if prop == 'C20':
        if getattr(spec, 'past_ops', None):
            return F('past_reads', goal='current', marks=0)
        out = sum([F(p, goal='migrated', marks=0, sizes=getattr(spec, 'save_sizes', None)) for p in programs.PAST], [])
        if spec.aggs and sizes:
            for t in getattr(spec, 'race_tables', sizes):
                for e in EVENTS:
                    out += F('past_loaded', 'race', race=(t, e), goal='kept', sizes=sizes, marks=0)
        return out
    if prop == 'C14':
        return F('rebuild', goal='rebuilt', stale='any', marks=getattr(spec, 'rebuild_marks', 1),
                 sizes=getattr(spec, 'rebuild_sizes', None), cube=cube)
    if prop == 'C19':
        if getattr(spec, 'entry', None) == 'rebuild':
            return F('command_rebuild', goal='commanded_rebuild', stale='any', marks=getattr(spec, 'rebuild_marks', 1),
                     sizes=getattr(spec, 'rebuild_sizes', None), cube=cube)
        size = sizes if tier == 'quick' else None
        if getattr(spec, 'entry', None) == 'request':
            return F('request_over', goal='commanded', sizes=size) + F('request_over', 'error', goal='commanded', sizes=sizes, marks=1)
        out = F('command_flush', goal='commanded', sizes=size) + F('command_flush', 'error', goal='commanded', sizes=sizes, marks=1) + \
            F('command_rebuild', goal='commanded_rebuild', stale='any', sizes=sizes, marks=1) + \
            F('respond', goal='answered', sizes=size) + F('respond', 'error', goal='answered', sizes=sizes, marks=1) + \
            F('respond', 'raise', goal='answered', sizes=sizes, marks=1) + \
            F('daemon', goal='cycled', sizes=sizes, marks=1) + F('daemon', 'error', goal='cycled', sizes=sizes, marks=1) + \
            F('daemon', 'interrupt', goal='cycled', sizes=sizes, marks=1)
        for t in sizes:
            for e in EVENTS:
                if not no_effect(ctx, spec, 'race', t, e):
                    out += F('daemon', 'sleep', race=(t, e), goal='cycled', sizes=sizes, marks=1)
        return out
    raise KeyError(prop)


def from_desc(ctx, spec, d):
    if d['ob'] == 'stmt':
        return obs.StmtOb.from_desc(ctx, spec, d)
    if d['ob'] == 'resolve':
        return resolve.ResolveOb.from_desc(ctx, spec, d)
    if d['ob'] == 'life':
        return life.LifeOb.from_desc(ctx, spec, d)
    if d['ob'] == 'flow':
        return flow.FlowOb.from_desc(ctx, spec, d)
    raise KeyError(d['ob'])
