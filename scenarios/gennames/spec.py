from symdb.speclib import D, Key, generic, total

ID_COLUMNS = ('gennames_remark.owner', 'gennames_mark.OwnerId')


def spec(M, schema, tier):
    cts = sorted(schema.ct[m] for m in (M.Remark, M.Mark, M.Article, M.Video))
    assert cts[-1] - cts[0] == 3
    remarks = generic(M.Article, 'kind_id', 'owner')
    vremarks = generic(M.Video, 'kind_id', 'owner', 'videoNo')
    vmarks = generic(M.Video, 'Kind', 'OwnerId', 'videoNo')

    def over(model, touch, col, weight=1):
        return lambda v, r: total(v, model, lambda t: touch(v, r, t), col, weight)

    class S(object):
        denorms = [
            D(M.Article, 'remark_total', over(M.Remark, remarks, 'val'), deps={M.Remark: remarks}),
            D(M.Video, 'remark_total', over(M.Remark, vremarks, 'val', 3), deps={M.Remark: vremarks}),
            D(M.Video, 'Total', over(M.Mark, vmarks, 'Value'), deps={M.Mark: vmarks}),
        ]
        aggs = []
        keys = [Key(M.Article, 'key', {M.Remark: remarks}), Key(M.Video, 'Key', {M.Mark: vmarks})]
        sizes = {'gennames_remark': 2, 'gennames_mark': 2, 'gennames_article': 2, 'gennames_video': 2}
        dangling = False
        extra = {'gennames_remark.kind_id': (cts[0], cts[-1]), 'gennames_remark.owner': (1, 3),
                 'gennames_mark.Kind': (cts[0], cts[-1]), 'gennames_mark.OwnerId': (1, 3)}
    return S
