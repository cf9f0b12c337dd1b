"""A03 -- combined production: subdivision by recalculation."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, exchange, product
from ..ref import alloc, params, unc
from ..ref.check import Raised, call, ds_list_equal, expect_raised, rp_name
from ..ref.common import aliased, same

from ocelot.transformations.cutoff.combined import (
    combined_production,
    combined_production_with_byproducts,
    combined_production_without_products,
)

FORMULAS = (None, 'r0 * 2', 'r0 + 3 * r1', 'mix * 0.5', 'r0 / r1', '4.5', 'share * r1', 'r1 ** 2 if r1 > 0 else 0.125')
PARAMS = {
    'mix': ('r0 + 2 * r1', 'r1 * scale', 'tot'),
    'share': ('r0 / (r0 + r1)', 'scale'),
}


def base(c, nrp, formulas, classes, by, wide, few=False):
    prods = []
    for i in range(nrp):
        cls = c.choose('class%d' % i, classes)
        amount = c.choose('amount%d' % i, (2., 3.) if cls == 'allocatable product' else (-2., -3.)) if wide else (
            2. + i if cls == 'allocatable product' else -2. - i)
        odd = c.choose('odd%d' % i, ('', 'zero', 'formula', 'uncertain'), dev=True)
        if odd == 'zero':
            amount = 0.
        p = product('rp%d' % i, 'product %d' % i, amount, pv=10. + i, classification=cls, price=2. + i,
                    variable='r%d' % i, uncertainty='lognormal' if odd == 'uncertain' else 'none')
        if odd == 'formula':
            p['formula'] = repr(amount) + ' * 1'
        prods.append(p)
    if nrp == 1:
        prods[0]['variable'] = 'r0'
    if len(prods) < 2:
        extra = [{'name': 'r1', 'variable': 'r1', 'amount': 0., 'id': 'r1'}]
    else:
        extra = []
    bys = []
    for i, cls in enumerate(by):
        f = c.choose('byproduct formula%d' % i, formulas[:3] if few else formulas, dev=few and i > 0)
        bys.append(product('by%d' % i, 'by %d' % i, 1.5, pv=5., classification=cls, type='byproduct', price=4.,
                           **({'formula': f} if f else {})))
        if c.flag('by uncertain%d' % i, dev=True):
            bys[-1]['uncertainty'] = {'type': 'triangular', 'minimum': 1., 'mode': 1.5, 'maximum': 2.}
    u = c.choose('input uncertainty', ('none', 'lognormal', 'normal', 'triangular', 'undefined'), dev=True)
    f1 = c.choose('input formula', formulas)
    f2 = c.choose('emission formula', formulas[::-1] if few else formulas, dev=few)
    ins = [
        exchange('in', 'from technosphere', 'input', 7., u, **({'formula': f1, 'variable': 'in_v'} if f1 else {})),
        exchange('em', 'to environment', 'CO2', 5., 'none', **({'formula': f2} if f2 else {})),
        exchange('fix', 'from technosphere', 'fixed', 11.),
    ]
    ins[0]['properties'] = [{'name': 'wet mass', 'amount': 1., 'unit': 'kg', 'variable': 'tot', 'id': 'tp',
                             'formula': 'scale + r1'}]
    for p in prods[:1]:
        p['production volume']['formula'] = 'scale * 100'
    parameters = [
        {'name': 'scale', 'variable': 'scale', 'amount': 0.5, 'id': 'sc'},
        {'name': 'mix', 'variable': 'mix', 'amount': 99., 'formula': c.choose('mix', PARAMS['mix']), 'id': 'mx'},
        {'name': 'share', 'variable': 'share', 'amount': 99., 'formula': c.choose('share', PARAMS['share']), 'id': 'sh'},
    ] + extra
    if c.flag('reverse parameters', dev=True):
        parameters = parameters[::-1]
    excs = prods + bys + ins
    if c.flag('products last', dev=True):
        excs = ins + bys + prods
    return dataset('d', 'combined thing', exchanges=excs, parameters=parameters)


def compare(c, fn, model, ds, strip_uncertainty=False):
    before = deepcopy(ds)
    c.state(repr(before))
    try:
        expected = model(before)
    except unc.Invalid:
        expected = 'ValueError'
    got = call(c, fn, ds)
    if isinstance(expected, str):
        c.outcome(expected)
        expect_raised(c, got, 'any', expected)
        return
    c.expect(not isinstance(got, Raised), lambda: 'rejected a valid activity: %r' % got)
    got2 = got
    if strip_uncertainty:
        expected, got2 = deepcopy(expected), deepcopy(got)
        for d in list(expected) + list(got2):
            for e in d['exchanges']:
                e.pop('uncertainty', None)
    for d in list(expected) + list(got2):
        # values of parameters in merged datasets are documented as undefined
        if strip_uncertainty:
            d.pop('parameters', None)
            for e in d['exchanges']:
                e.pop('properties', None)
    problems = ds_list_equal(expected, got2, rp_name)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    c.expect(not aliased(*got), 'datasets share mutable state')
    c.outcome([[x['amount'] for x in d['exchanges']] for d in got])
    return got


def plain(wide):
    def scenario(c):
        n = c.choose('reference products', (2, 3) if wide else (2,))
        ds = base(c, n, FORMULAS, ('allocatable product',), ('recyclable',) if wide else ('waste',), wide, few=not wide)
        before = deepcopy(ds)
        compare(c, combined_production, alloc.subdivided, ds)
        c.expect(same(ds, before), 'the original dataset was modified')
    return scenario


def with_by(wide):
    def scenario(c):
        by = c.choose('byproducts', (('allocatable product',), ('allocatable product', 'waste'),
                                     ('allocatable product', 'allocatable product')))
        n = c.choose('reference products', (2, 3), dev=not wide)
        fs = FORMULAS if wide else (None, 'r0 + 3 * r1', 'mix * 0.5', 'r0 / r1')
        ds = base(c, n, fs, ('allocatable product',), by, False, few=not wide)
        compare(c, combined_production_with_byproducts, alloc.combined_with_byproducts, ds, strip_uncertainty=True)
    return scenario


def without(wide):
    def scenario(c):
        by = c.choose('byproducts', (('allocatable product',), ('allocatable product', 'recyclable'),
                                     ('allocatable product', 'waste')))
        n = c.choose('reference products', (2, 3), dev=not wide)
        fs = (None, 'r0 * -2', '-1 * (r0 + 3 * r1)', 'abs(mix)', 'r0 / r1')[:5 if wide else 4]
        ds = base(c, n, fs, ('waste', 'recyclable'), by, False, few=not wide)
        compare(c, combined_production_without_products, alloc.combined_without_products, ds)
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('plain', explore('plain', plain(big), bound=2 if big else 1),
            '2%s products, formulas from %d, <=%d deviations' % ('-3' if big else '', len(FORMULAS), 2 if big else 1))
    rep.add('with byproducts', explore('with byproducts', with_by(big), bound=1), '')
    rep.add('without products', explore('without products', without(big), bound=1), '')
    rep.assume('formula alphabet: arithmetic, conditionals, division by zero, chained parameters')
