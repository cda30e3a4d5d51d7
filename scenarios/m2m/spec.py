from symdb.speclib import D, via, linked
from symdb.harness import eqv


def spec(M, schema, tier):
    T = M.Article.labels.through

    class S(object):
        denorms = [
            D(M.Article, 'label_total', lambda v, r: linked(v, T, 'article_id', r['id'], 'label_id', M.Label, 'val'),
              deps={M.Label: via(T, 'article_id', 'label_id'), T: lambda v, r, c: eqv(c['article_id'], r['id'])}),
            D(M.Label, 'article_total', lambda v, r: linked(v, T, 'label_id', r['id'], 'article_id', M.Article, 'val'),
              deps={M.Article: via(T, 'label_id', 'article_id'), T: lambda v, r, c: eqv(c['label_id'], r['id'])}),
        ]
        aggs = []
        keys = []
        sizes = {'m2m_label': 2, 'm2m_article': 2, 'm2m_article_labels': 3}
        flow_sizes = {'m2m_label': 1, 'm2m_article': 2, 'm2m_article_labels': 2} if tier == 'quick' else None
        dangling = False
        flow_marks = 1 if tier == 'quick' else 2
        extra = {}
        no_effect = [('rel', 'm2m_label', 'insert'), ('rel', 'm2m_label', 'delete'),
                     ('rel', 'm2m_article', 'insert'), ('rel', 'm2m_article', 'delete')]
    return S
