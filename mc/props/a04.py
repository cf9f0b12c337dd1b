"""A04 -- allocation dispatch: every dataset gets exactly the treatment its shape calls for."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, exchange, product
from ..ref import alloc
from ..ref.check import Raised, call, ds_list_equal
from ..ref.common import aliased, same

from ocelot.transformations.cutoff import cutoff_allocation

TYPES = ('transforming activity', 'market activity', 'market group')
CLASSES = ('allocatable product', 'waste', 'recyclable')


def key(ds):
    names = sorted(e['name'] for e in ds['exchanges'] if e['type'] == 'reference product')
    return (ds['id'], ds['name'], tuple(names))


def strip(ds):
    """Merged combined production: uncertainty and parameter values are documented as unspecified."""
    ds = deepcopy(ds)
    ds.pop('parameters', None)
    for e in ds['exchanges']:
        e.pop('uncertainty', None)
        e.pop('properties', None)
    return ds


def one(i, c=None, **forced):
    """A dataset of one shape; the choices come from ``c`` or are forced."""
    def ch(label, options, dev=False):
        if label in forced:
            return forced[label]
        return c.choose('%s%s' % (i, label), options, dev=dev) if c else options[0]
    typ = ch('type', TYPES)
    n = ch('products', (1, 2, 0))
    prods = []
    for k in range(n):
        cls = ch('class%d' % k, CLASSES)
        amount = ch('amount%d' % k, (2., -2., 0.))
        prods.append(product('r%d' % k, 'product %d' % k, amount, pv=10., classification=cls, price=3.,
                             variable='v%d' % k))
    m = ch('byproducts', (0, 1, 2))
    for k in range(m):
        cls = ch('bclass%d' % k, CLASSES, dev=k > 0)
        amount = ch('bamount%d' % k, (1.5, 0.), dev=k > 0)
        cond = ch('conditional%d' % k, (False, True), dev=k > 0)
        e = product('b%d' % k, 'by %d' % k, -amount if cond else amount, pv=4., classification=cls,
                    price=2., type='byproduct', formula='v0 * 0.75' if cls == 'waste' else None)
        if e['formula'] is None:
            del e['formula']
        if cond:
            e['conditional exchange'] = True
            e['activity link'] = 'elsewhere'
        prods.append(e)
    flows = [
        exchange('in', 'from technosphere', 'input', 6., formula='v0 * 3', variable='inv'),
        exchange('em', 'to environment', 'CO2', 5., 'normal'),
    ]
    if ch('conditional input', (False, True), dev=True):
        flows[0]['conditional exchange'] = True
    params = [{'name': 'v%d' % k, 'variable': 'v%d' % k, 'amount': 0., 'id': 'v%d' % k} for k in range(n, 1)]
    name = ch('name', ('thing making', 'rare earth oxides production from bastnäsite concentrate'), dev=True)
    if name != 'thing making':
        # the one activity that is allocated economically instead of subdivided
        name = 'thing making' if not (n > 1) else name
    return dataset('id%s' % i, name, type=typ, exchanges=prods + flows, parameters=params)


SPECIAL = 'rare earth oxides production from bastnäsite concentrate'


def model(ds):
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product' and e['amount']]
    useful = any(e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product'
                 and e['amount'] for e in ds['exchanges'])
    if (ds['name'] == SPECIAL and ds['type'] == 'transforming activity' and len(rps) > 1 and not useful
            and any(e['byproduct classification'] == 'allocatable product'
                    for e in ds['exchanges'] if e['type'] == 'reference product')):
        return alloc.economic(ds)
    return alloc.dispatched(ds)


def judge(c, data, untouched=()):
    before = deepcopy(data)
    c.state(repr(before))
    expected, error = [], None
    for d in before:
        m = model(d)
        if isinstance(m, str):
            error = error or m
        else:
            expected += m
    got = call(c, lambda: cutoff_allocation(data))
    if error:
        c.outcome(error)
        c.expect(isinstance(got, Raised), lambda: 'accepted an activity that cannot be allocated (%s): %r' % (
            error, [key(d) for d in got]))
        return
    c.expect(not isinstance(got, Raised), lambda: 'rejected valid activities: %r' % got)
    problems = ds_list_equal([strip(d) for d in expected], [strip(d) for d in got], key)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    c.expect(not aliased(*got), 'resulting datasets share mutable state')
    c.outcome(sorted(map(repr, (key(d) for d in got))))


def shapes(c):
    judge(c, [one('', c)])


ARCHETYPES = {
    'single': dict(products=1, byproducts=1, bclass0='waste', type='transforming activity'),
    'market': dict(products=1, byproducts=0, type='market activity'),
    'group': dict(products=1, byproducts=0, type='market group'),
    'constrained': dict(products=1, byproducts=1, type='market activity', conditional0=True),
    'economic': dict(products=1, byproducts=1, type='transforming activity'),
    'waste': dict(products=1, byproducts=1, type='transforming activity', class0='waste', amount0=-2.),
    'recycling': dict(products=1, byproducts=1, type='transforming activity', class0='recyclable', amount0=-2.),
    'combined': dict(products=2, byproducts=0, type='transforming activity'),
    'combined with': dict(products=2, byproducts=1, type='transforming activity'),
    'combined without': dict(products=2, byproducts=1, type='transforming activity', class0='waste',
                             class1='recyclable', amount0=-2., amount1=-2.),
}


def lists(n):
    def scenario(c):
        k = c.choose('length', range(n + 1))
        judge(c, [one(i, **ARCHETYPES[c.choose('dataset %d' % i, tuple(ARCHETYPES))]) for i in range(k)])
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('shapes', explore('shapes', shapes, bound=2 if big else 1),
            '3 dataset types, <=2 reference products and <=2 by-products of 3 classes, positive, zero and negative')
    n = 4 if big else 3
    rep.add('lists', explore('lists', lists(n)), 'all sequences of <=%d datasets of 10 archetypes' % n)
