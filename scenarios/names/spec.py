from symdb.speclib import D, Agg, Key, back, fwd, lookup, total, count, valid_fk, via, linked
from symdb.harness import eqv
from symdb.terms import SVal


def spec(M, schema, tier):
    T = M.Parcel.labels.through
    LONG, LONG2 = M.Summary._meta.db_table, M.Part._meta.db_table

    class S(object):
        denorms = [
            D(M.City, 'countryVal', lambda v, r: lookup(v, M.Country, r['group'], 'Value', 0),
              defined=valid_fk(M.Country, 'group'), deps={M.Country: fwd('group', 'code')}),
            D(M.City, 'Double', lambda v, r: SVal(False, r['select'].v * 2)),
            D(M.Summary, 'Key', lambda v, r: total(v, M.Line, lambda c: eqv(c['sumRef'], r['ID']), 'from'),
              deps={M.Line: back('sumRef', 'ID')}),
            D(M.Summary, 'parts', lambda v, r: total(v, M.Part, lambda c: eqv(c['summary_id'], r['ID']), 'amount'),
              deps={M.Part: back('summary_id', 'ID')}),
            D(M.Part, 'twice', lambda v, r: SVal(False, r['amount'].v * 2)),
            D(M.Parcel, 'weight', lambda v, r: linked(v, T, 'parcel_id', r['parcelId'], 'label_id', M.Label, 'Weight'),
              deps={M.Label: via(T, 'parcel_id', 'label_id', 'parcelId', 'labelId'),
                    T: lambda v, r, c: eqv(c['parcel_id'], r['parcelId'])}),
        ]
        aggs = [
            Agg(M.Country, 'n_cities', lambda v, r: count(v, M.City, lambda c: eqv(c['group'], r['code'])), M.City),
            Agg(M.Account, 'Total', lambda v, r: total(v, M.Entry, lambda c: eqv(c['Acc'], r['accNo']), 'Amount'), M.Entry, True),
            Agg(M.Account, 'Number', lambda v, r: count(v, M.Entry, lambda c: eqv(c['Acc'], r['accNo'])), M.Entry),
        ]
        keys = [Key(M.Account, 'Key', {M.Entry: back('Acc', 'accNo')})]
        sizes = {'order': 2, 'CityTable': 2, LONG: 2, LONG2: 2, 'Line': 2, 'names_label': 2, 'Parcel': 2, 'ParcelLabels': 2,
                 'Account': 2, 'table': 2}
        dangling = False
        extra = {}
        no_effect = [('rel', 'order', 'delete'), ('rel', 'order', 'insert'), ('rel', 'names_label', 'insert'),
                     ('rel', 'names_label', 'delete')]
    return S
