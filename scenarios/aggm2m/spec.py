from symdb.speclib import Agg, count, total, via
from symdb.programs import Saver


def spec(M, schema, tier):
    T, A = M.Post.topics.through, M.Post.authors.through
    posts, authors = via(T, 'topic_id', 'post_id'), via(A, 'post_id', 'author_id', other_pk='author_num')

    class S(object):
        denorms = []
        aggs = []
        keys = []
        sizes = {'aggm2m_topic': 2, 'aggm2m_author': 2, 'aggm2m_post': 2, 'aggm2m_post_topics': 2, 'aggm2m_post_authors': 2}
        flow_sizes = {'aggm2m_topic': 1, 'aggm2m_post': 1, 'aggm2m_author': 2, 'aggm2m_post_topics': 1, 'aggm2m_post_authors': 2}
        race_sizes = flow_sizes
        race_tables = ['aggm2m_post', 'aggm2m_author', 'aggm2m_post_topics', 'aggm2m_post_authors']
        rebuild_sizes = {'aggm2m_topic': 1, 'aggm2m_post': 2, 'aggm2m_author': 1, 'aggm2m_post_topics': 2, 'aggm2m_post_authors': 1}
        rebuild_marks = 0 if tier == 'quick' else 1
        savers = [Saver(M.Topic, {}, ('n_posts', 'words')), Saver(M.Post, {'words': 'words'}, ('n_authors', 'fame'))]
        dangling = False
        extra = {}
        # linked rows cannot be deleted and new ones have no links; a plain count does not look at the rows
        no_effect = [('agg', t, e) for t in ('aggm2m_author', 'aggm2m_post') for e in ('insert', 'delete')]
        no_effect_on_counts = [('agg', t, 'update') for t in ('aggm2m_author', 'aggm2m_post')]

    def agg(model, column, other, touch, col=None):
        def fn(v, r):
            if col is None:
                return count(v, other, lambda c: touch(v, r, c))
            return total(v, other, lambda c: touch(v, r, c), col)
        return fn
    for table in (T, A):
        mine = table is T
        model, other, touch = (M.Topic, M.Post, posts) if mine else (M.Post, M.Author, authors)
        n, amount, col = ('n_posts', 'words', 'words') if mine else ('n_authors', 'fame', 'fame')
        for source in (table, other):
            S.aggs.append(Agg(model, n, agg(model, n, other, touch), source))
            S.aggs.append(Agg(model, amount, agg(model, amount, other, touch, col), source, True))
    S.selections = [(None, None, S.aggs)]
    return S
