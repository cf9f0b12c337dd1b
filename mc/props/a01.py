"""A01 -- economic allocation."""
from copy import deepcopy

from ..engine import explore
from ..gen import UNCERTAINTIES, dataset, exchange, product
from ..ref import alloc
from ..ref.check import Raised, call, ds_list_equal, expect_raised, rp_name
from ..ref.common import aliased, close, same

from ocelot.transformations.cutoff.economic import economic_allocation


def flows():
    """One non-product flow per uncertainty kind and per exchange role."""
    out = [exchange('in-' + u, 'from technosphere', 'input ' + u, 2.5, u) for u in UNCERTAINTIES]
    out += [
        exchange('em', 'to environment', 'CO2', 0.7, 'lognormal', formula='a * 2', variable='em_v'),
        exchange('res', 'from environment', 'water', -3., 'normal'),
        exchange('neg', 'from technosphere', 'negative input', -1.5, 'lognormal',
                 **{'activity link': 'someone'}),
        product('w', 'sludge', 0.25, classification='waste', type='byproduct', uncertainty='triangular'),
        product('rc', 'scrap', 0.5, classification='recyclable', type='byproduct', uncertainty='uniform'),
        exchange('zero', 'from technosphere', 'nothing', 0.),
        # flows with the names of products
        exchange('own', 'from technosphere', 'product 0', 0.125),
        exchange('own2', 'from technosphere', 'by 0', 0.375),
    ]
    return out


def make(c, n_by, amounts, prices, tvs, odd):
    prods = []
    for i in range(n_by + 1):
        amount = c.choose('amount%d' % i, amounts)
        price = c.choose('price%d' % i, prices)
        tv = c.choose('true value%d' % i, tvs)
        weird = c.choose('odd%d' % i, odd, dev=True)
        if weird == 'negative amount':
            amount = -amount
        elif weird == 'zero amount':
            amount = 0
        elif weird == 'negative price':
            price = -1
        elif weird == 'no price':
            price = None
        elif weird == 'tiny':
            amount *= 1e-12
        elif weird == 'huge':
            amount *= 1e9
        prods.append(product('p%d' % i, 'product %d' % (0 if weird == 'same name' else i), amount, pv=10. * (i + 1), price=price,
                             true_value=tv, classification='allocatable product',
                             type='byproduct' if i else 'reference product', uncertainty='none',
                             formula='v%d * 1' % i, variable='v%d' % i))
        if weird == 'uncertain':
            prods[-1]['uncertainty'] = {'type': 'uniform', 'minimum': amount - 1, 'maximum': amount + 1}
        elif weird == 'extra property':
            prods[-1].setdefault('properties', []).insert(0, {'name': 'dry mass', 'amount': 7., 'unit': 'kg'})
    return prods


def judge(c, ds, got, before, factors=True):
    expected = alloc.economic(before)
    c.state((repr(before)))
    if isinstance(expected, str):
        c.outcome(expected)
        expect_raised(c, got, ('InvalidExchange', 'ZeroProduction'), expected)
        return
    c.expect(not isinstance(got, Raised), lambda: 'rejected a valid activity: %r' % got)
    problems = ds_list_equal(expected, got, rp_name)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    c.expect(same(ds, before), 'the activity being allocated was modified')
    c.expect(not aliased(ds, *got), 'allocated datasets share mutable state')
    # Conservation, computed from the output alone.
    for e in before['exchanges']:
        if alloc.is_production(e):
            continue
        total = 0
        for d in got:
            rp = [x for x in d['exchanges'] if x['type'] == 'reference product'][0]
            original = [x for x in before['exchanges'] if x['id'] == rp['id']][0]['amount']
            total += original * [x for x in d['exchanges'] if x['id'] == e['id']][0]['amount']
        c.expect(close(total, e['amount'], rel=1e-8, abs_=1e-9),
                 lambda: 'flow %s not conserved: %r of %r' % (e['id'], total, e['amount']))
    c.outcome([[x['amount'] for x in d['exchanges']] for d in got])


def scenario_for(n_by, amounts, prices, tvs, odd):
    def scenario(c):
        prods = make(c, n_by, amounts, prices, tvs, odd)
        # production exchanges first, last or interleaved
        f = flows()
        place = c.choose('placement', ('mixed', 'first', 'last'), dev=True)
        if place == 'first':
            excs = prods + f
        elif place == 'last':
            excs = f + prods[::-1]
        else:
            excs = f[:3] + prods[1:] + f[3:] + prods[:1]
        ds = dataset('d', 'making things', exchanges=excs, parameters=[
            {'name': 'a', 'variable': 'a', 'amount': 0.35, 'id': 'pa'}])
        before = deepcopy(ds)
        got = call(c, economic_allocation, ds)
        judge(c, ds, got, before)
    return scenario


ODD = ('', 'uncertain', 'extra property', 'same name', 'negative amount', 'zero amount', 'negative price', 'no price', 'tiny', 'huge')


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('one or two products', explore('one or two products', lambda c: scenario_for(
        c.choose('byproducts', (0, 1)), (1., 2., 0.5), (0., 1., 3.), (None, 0., 2.), ODD)(c),
        bound=2 if big else 1),
        'byproducts<=1, amounts {0.5,1,2}, prices {0,1,3}, true value {absent,0,2}, <=%d odd features' % (2 if big else 1))
    rep.add('three products', explore('three products', scenario_for(
        2, (1., 2.), (0., 1., 3.) if big else (0., 2.), (None, 0., 2.) if big else (None, 3.), ODD if big else ODD[:5]),
        bound=1),
        '2 byproducts, <=1 deviation')
    if big:
        rep.add('four products', explore('four products', scenario_for(
            3, (2.,), (0., 1., 3.), (None, 0., 2.), ('',)), bound=0), '3 byproducts')
    rep.assume('amounts, prices and true values outside the listed alphabets are not enumerated',
               'floating point agreement is judged to 1e-9 relative')
