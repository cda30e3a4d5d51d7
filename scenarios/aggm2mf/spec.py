from symdb.terms import And, Not, Eq
from symdb.speclib import Agg, count, total, via


def spec(M, schema, tier):
    T, P = M.Post.topics.through, M.Prize.posts.through
    posts, prized = via(T, 'topic_id', 'post_id'), via(P, 'prize_id', 'post_id')

    def hidden(p):
        return Eq(p['hidden'].v, 1)

    def n_long(v, r):
        return count(v, M.Post, lambda p: And(posts(v, r, p), p['words'].v > 3, Not(hidden(p))))

    def words(v, r):
        return total(v, M.Post, lambda p: And(posts(v, r, p), Not(hidden(p))), 'words')

    def n_hidden(v, r):
        return count(v, M.Post, lambda p: And(prized(v, r, p), p['words'].v <= 5, hidden(p)))

    def n_other(v, r):
        return count(v, M.Post, lambda p: And(prized(v, r, p), Not(And(p['words'].v < 4, hidden(p)))))

    class S(object):
        denorms = []
        aggs = [Agg(M.Topic, 'n_long', n_long, T), Agg(M.Topic, 'words', words, M.Post, True), Agg(M.Prize, 'n_hidden', n_hidden, P),
                Agg(M.Prize, 'n_other', n_other, P)]
        keys = []
        sizes = {'aggm2mf_topic': 2, 'aggm2mf_post': 2, 'aggm2mf_prize': 2, 'aggm2mf_post_topics': 2, 'aggm2mf_prize_posts': 2}
        rebuild_sizes = {'aggm2mf_topic': 1, 'aggm2mf_post': 2, 'aggm2mf_prize': 1, 'aggm2mf_post_topics': 1, 'aggm2mf_prize_posts': 2}
        rebuild_marks = 0 if tier == 'quick' else 1
        dangling = False
        extra = {}
        no_effect = [('agg', 'aggm2mf_post', e) for e in ('insert', 'delete')]
        no_effect_on_sums = [('agg', 'aggm2mf_prize_posts', e) for e in ('insert', 'update', 'delete')]
    S.selections = [(None, None, S.aggs)]
    return S
