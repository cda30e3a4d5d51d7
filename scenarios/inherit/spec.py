from symdb.speclib import D, Agg, Key, back, fwd, lookup, count, valid_fk
from symdb.harness import eqv
from symdb.terms import SVal, Implies, Or, And, Not


def spec(M, schema, tier):
    stock = {M.Stock: fwd('stock_id')}

    def plus(col):
        def f(v, r):
            return SVal(False, lookup(v, M.Stock, r['stock_id'], 'val', 0).v + r[col].v)
        return f

    def plain(v, r):
        return lookup(v, M.Stock, r['stock_id'], 'val', 0)
    ok = valid_fk(M.Stock, 'stock_id')

    class S(object):
        denorms = [
            D(M.ShopA, 'stock_val', plus('own'), defined=ok, deps=stock),
            D(M.ShopB, 'stock_val', plus('own'), defined=ok, deps=stock),
            D(M.Place, 'val2', lambda v, r: SVal(False, r['val'].v * 2)),
            D(M.Cafe, 'menu', plus('seats'), defined=ok, deps=stock),
            D(M.Table, 'cafe_seats', lambda v, r: lookup(v, M.Cafe, r['cafe_id'], 'seats', 0),
              defined=valid_fk(M.Cafe, 'cafe_id'), deps={M.Cafe: fwd('cafe_id', 'place_ptr_id')}),
            D(M.ProxyUser, 'pval', plain, defined=ok, deps=stock),
            D(M.Replacement, 'sval', plain, defined=ok, deps=stock),
        ]
        aggs = [
            Agg(M.ShelfA, 'n_books', lambda v, r: count(v, M.BookA, lambda c: eqv(c['shelf_id'], r['id'])), M.BookA),
            Agg(M.ShelfB, 'n_books', lambda v, r: count(v, M.BookB, lambda c: eqv(c['shelf_id'], r['id'])), M.BookB),
        ]
        keys = [Key(M.ShopA, 'key', stock), Key(M.ShopB, 'key', stock)]
        sizes = {'inherit_stock': 2, 'inherit_shopa': 2, 'inherit_shopb': 2, 'inherit_shelfa': 2, 'inherit_shelfb': 2,
                 'inherit_booka': 2, 'inherit_bookb': 2, 'inherit_place': 2, 'inherit_cafe': 2, 'inherit_table': 2,
                 'inherit_proxyuser': 2, 'inherit_replacement': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'inherit_stock', 'delete'), ('rel', 'inherit_stock', 'insert'),
                     ('key', 'inherit_stock', 'delete'), ('key', 'inherit_stock', 'insert'),
                     ('rel', 'inherit_cafe', 'delete'), ('rel', 'inherit_cafe', 'insert')]
    return S
