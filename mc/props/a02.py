"""A02 -- waste treatment and recycling allocation."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, exchange, product
from ..ref import alloc
from ..ref.check import Raised, call, ds_list_equal, expect_raised, rp_name
from ..ref.common import aliased, close, same
from .a01 import flows

from ocelot.transformations.cutoff.wastes import recycling_allocation, waste_treatment_allocation


def byproducts(c, n, amounts, prices, tvs, classes):
    out = []
    for i in range(n):
        cls = c.choose('class%d' % i, classes)
        amount = c.choose('amount%d' % i, amounts)
        price = c.choose('price%d' % i, prices) if cls == 'allocatable product' else 1.
        tv = c.choose('tv%d' % i, tvs) if cls == 'allocatable product' else None
        odd = c.choose('odd%d' % i, ('', 'lognormal', 'triangular', 'zero', 'no price', 'name of the treated'), dev=True)
        if odd == 'zero':
            amount = 0.
        e = product('b%d' % i, 'thing to treat' if odd == 'name of the treated' else 'by %d' % i, amount, pv=3. + i,
                    price=None if odd == 'no price' else price,
                    true_value=tv, classification=cls, type='byproduct',
                    uncertainty=odd if odd in ('lognormal', 'triangular') else 'none',
                    variable='b%d_v' % i)
        out.append(e)
    return out


def scenario_for(kind, maxby, wide):
    fn = waste_treatment_allocation if kind == 'waste' else recycling_allocation
    model = alloc.waste if kind == 'waste' else alloc.recycling

    def scenario(c):
        n = c.choose('byproducts', range(maxby + 1))
        by = byproducts(c, n, (2., 0.5) if wide else (2.,),
                        ((0., 1., 3.) if wide else (1., 3.)) if kind != 'waste' else (1.,),
                        (None, 2.) if wide and kind != 'waste' else (None,),
                        ('allocatable product', 'waste', 'recyclable'))
        cls = c.choose('treated', (('waste', 'recyclable', 'allocatable product') if kind == 'waste' else
                                   ('recyclable', 'allocatable product', 'waste')), dev=True)
        amount = c.choose('treated amount', (-1., -4., 4., 0.), dev=True)
        unc = c.choose('rp uncertainty', ('none', 'lognormal', 'normal', 'triangular', 'uniform', 'undefined'), dev=True)
        if amount == 0 and unc != 'none':
            unc = 'none'
        rp = product('rp', 'thing to treat', amount, pv=7., classification=cls, uncertainty=unc,
                     price=c.choose('rp price', (0., 5.), dev=True))
        f = flows()
        order = c.choose('placement', ('rp first', 'rp last', 'rp middle'), dev=True)
        if order == 'rp first':
            excs = [rp] + by + f
        elif order == 'rp last':
            excs = f + by + [rp]
        else:
            excs = by[:1] + f[:2] + [rp] + by[1:] + f[2:]
        ds = dataset('d', 'treatment of things', exchanges=excs)
        before = deepcopy(ds)
        c.state(repr(before))
        expected = model(before)
        got = call(c, fn, ds)
        if isinstance(expected, str):
            c.outcome(expected)
            names = {'any': 'any'}.get(expected, ('InvalidExchange', 'ZeroProduction'))
            expect_raised(c, got, names, expected)
            return
        c.expect(not isinstance(got, Raised), lambda: 'rejected a valid activity: %r' % got)
        problems = ds_list_equal(expected, got, rp_name)
        c.expect(not problems, lambda: '\n'.join(problems[:8]))
        c.expect(not aliased(*got), 'allocated datasets share mutable state')
        if kind == 'waste':
            c.expect(same(ds, before), 'the activity being allocated was modified')
            # burdens: the flows of the treatment are complete, the others have none
            burdened = [d for d in got if len(d['exchanges']) > 1]
            c.expect(len(burdened) == 1 and all(len(d['exchanges']) == 1 for d in got if d is not burdened[0]),
                     'burdens are not all with the treatment')
        else:
            # the recycled material is consumed, in full, by the products together
            total = 0
            for d in got:
                r = [x for x in d['exchanges'] if x['type'] == 'reference product'][0]
                orig = [x for x in before['exchanges'] if x['id'] == r['id']][0]['amount']
                t = [x for x in d['exchanges'] if x['id'] == 'rp']
                c.expect(len(t) == 1 and t[0]['type'] == 'from technosphere', 'treated material is not an input')
                total += t[0]['amount'] * orig
            c.expect(close(total, -amount, rel=1e-8), lambda: 'treated material not conserved: %r' % total)
        c.outcome([[x['amount'] for x in d['exchanges']] for d in got])
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    for kind in ('waste', 'recycling'):
        rep.add(kind, explore(kind, scenario_for(kind, 3 if big and kind == 'waste' else 2, big), bound=2),
                'byproducts<=%d of 3 classifications, <=2 deviations' % (3 if big and kind == 'waste' else 2))
    rep.assume('alphabet values as listed; agreement judged to 1e-9 relative')
