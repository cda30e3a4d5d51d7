from symdb.speclib import Key, back, fwd, via, generic
from symdb.harness import eqv
from symdb.programs import Saver

ID_COLUMNS = ('keys_tag.object_id',)


def spec(M, schema, tier):
    T = M.Text.words.through

    class S(object):
        denorms = []
        aggs = []
        keys = [
            Key(M.Parent, 'back_key', {M.Child: back('parent_id')}),
            Key(M.Leaf, 'fwd_key', {M.Branch: fwd('branch_id')}, {M.Branch: ('hidden',)}),
            Key(M.Text, 'm2m_key', {T: lambda v, r, c: eqv(c['text_id'], r['id']), M.Word: via(T, 'text_id', 'word_id')}),
            Key(M.Text, 'tag_key', {M.Tag: generic(M.Text)}),
        ]
        sizes = {'keys_parent': 2, 'keys_child': 2, 'keys_branch': 2, 'keys_leaf': 2, 'keys_word': 2, 'keys_text': 2,
                 'keys_text_words': 2, 'keys_tag': 2}
        flow_sizes = {'keys_parent': 2, 'keys_branch': 1, 'keys_leaf': 2, 'keys_text': 1}
        savers = [Saver(M.Parent, {'val': 'val'}, ('back_key',)), Saver(M.Leaf, {'branch_id': 'branch_id'}, ('fwd_key',), ('branch_id',)),
                  Saver(M.Text, {'val': 'val'}, ('m2m_key', 'tag_key'))]
        dangling = False
        extra = {'keys_tag.object_id': (1, 3),
                 'keys_tag.content_type_id': (min(schema.ct[M.Text], schema.ct[M.Parent]),
                                              max(schema.ct[M.Text], schema.ct[M.Parent]))}
        no_effect = [('key', 'keys_word', e) for e in ('insert', 'delete')] + \
                    [('key', 'keys_branch', e) for e in ('insert', 'delete')]
    return S
