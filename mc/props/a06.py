"""A06 -- cut-off clean-up: consequential exchanges, meaningless hard links, signs."""
from copy import deepcopy

from ..engine import explore
from ..gen import UNCERTAINTIES, dataset, exchange, product
from ..ref.alloc import scaled
from ..ref.check import Raised, call, ds_equal
from ..ref.common import same

from ocelot.transformations.cutoff import (
    adjust_market_signs_for_allocatable_products,
    cleanup_activity_links,
    flip_non_allocatable_byproducts,
)
from ocelot.transformations.cutoff.cleanup import (
    drop_rp_activity_links,
    drop_zero_amount_activity_links,
    remove_consequential_exchanges,
)

ROLES = ('reference product', 'byproduct', 'from technosphere', 'to environment', 'dropped product', 'from environment')


def compare(c, expected, got):
    c.expect(isinstance(got, list) and len(got) == len(expected), lambda: 'got %r' % got)
    for e, g in zip(expected, got):
        p = ds_equal(e, g)
        c.expect(not p, lambda: '\n'.join(p[:6]))
    c.outcome([[(x['name'], x['type'], x['amount'], x.get('activity link')) for x in d['exchanges']] for d in got])


FULL = False


def links(c):
    """Hard links and consequential exchanges, any role and amount, next to each other."""
    excs = []
    for i in range(2):
        dev = i == 1 and not FULL
        role = c.choose('role%d' % i, ROLES, dev=dev)
        e = exchange('e%d' % i, role, 'flow %d' % i, c.choose('amount%d' % i, (1., 0., -2., 0), dev=dev),
                     c.choose('unc%d' % i, ('none', 'triangular'), dev=True))
        if c.flag('link%d' % i, dev=dev):
            e['activity link'] = 'x%d' % i
        if role in ('byproduct', 'reference product'):
            e['byproduct classification'] = 'allocatable product'
        p = c.choose('consequential%d' % i, (None, 1, 0, 1., 2, 'other', 'second'), dev=dev)
        if p == 'other':
            e['properties'] = [{'name': 'consequential amount', 'amount': 1}]
        elif p == 'second':
            e['properties'] = [{'name': 'dry mass', 'amount': 0.5}, {'name': 'consequential', 'amount': 1.}]
        elif p is not None:
            e['properties'] = [{'name': 'consequential', 'amount': p}, {'name': 'dry mass', 'amount': 1.}]
        excs.append(e)
    ds = dataset('d', 'name', type=c.choose('type', ('transforming activity', 'market activity')), exchanges=excs)
    step = c.choose('step', ('all', 'links', 'rp', 'zero', 'consequential'))
    data = [ds, dataset('other', 'other', exchanges=[exchange('z', 'from technosphere', 'z', 3., **{'activity link': 'keep'})])]
    expected = deepcopy(data)
    c.state(repr((step, expected)))

    def consequential(e):
        return any(p['name'] == 'consequential' and p['amount'] == 1 for p in e.get('properties', []))
    for d in expected:
        if step in ('all', 'consequential'):
            d['exchanges'] = [e for e in d['exchanges'] if not consequential(e)]
        for e in d['exchanges']:
            if step in ('all', 'links', 'rp') and e['type'] in ('reference product', 'dropped product'):
                e.pop('activity link', None)
            if step in ('all', 'links', 'zero') and not e['amount']:
                e.pop('activity link', None)
    if step in ('all', 'consequential'):
        data = call(c, remove_consequential_exchanges, data)
        c.expect(not isinstance(data, Raised), lambda: repr(data))
    if step in ('all', 'links'):
        data = call(c, lambda d: cleanup_activity_links(d), data)
    elif step == 'rp':
        data = call(c, drop_rp_activity_links, data)
    elif step == 'zero':
        data = call(c, drop_zero_amount_activity_links, data)
    compare(c, expected, data)


def flip(c):
    """Outputs that need treatment become inputs of the opposite sign, with their distribution."""
    excs = [product('rp', 'thing', 1., pv=1., classification=c.choose('rp class', ('allocatable product', 'waste', 'recyclable'), dev=True))]
    for i in range(c.choose('outputs', (1, 2))):
        role = c.choose('role%d' % i, ('byproduct', 'from technosphere', 'to environment'))
        amount = c.choose('amount%d' % i, (2., -2., 0.))
        unc = c.choose('unc%d' % i, UNCERTAINTIES) if amount else 'none'
        e = exchange('e%d' % i, role, 'flow %d' % i, amount, unc)
        if role == 'byproduct':
            e['byproduct classification'] = c.choose('class%d' % i, ('waste', 'recyclable', 'allocatable product'))
        if c.flag('formula%d' % i):
            e['formula'] = 'a + 2'
        excs.append(e)
    data = [dataset('d', 'name', exchanges=excs), dataset('d2', 'other', exchanges=deepcopy(excs))]
    expected = deepcopy(data)
    c.state(repr(expected))
    for d in expected:
        for i, e in enumerate(d['exchanges']):
            if e['type'] == 'byproduct' and e['byproduct classification'] != 'allocatable product':
                e = scaled(e, -1)
                e['type'] = 'from technosphere'
                del e['byproduct classification']
                if 'formula' in e:
                    e['formula'] = '-1 * (%s)' % e['formula']
                d['exchanges'][i] = e
    compare(c, expected, call(c, flip_non_allocatable_byproducts, data))


def signs(c):
    """Non-waste markets never end with a negative product."""
    typ = c.choose('type', ('market activity', 'transforming activity', 'market group'))
    cls = c.choose('class', ('allocatable product', 'recyclable', 'waste'))
    unc = c.choose('unc', UNCERTAINTIES, dev=True)
    excs = [product('rp', 'thing', c.choose('product', (-1., 1., -0.5)), pv=1., classification=cls, uncertainty=unc)]
    for i in range(c.choose('inputs', (0, 1, 2, 3))):
        dev = i == 2 and not FULL
        amount = c.choose('amount%d' % i, (-0.5, 0.5, 0.), dev=dev)
        excs.append(exchange('e%d' % i, c.choose('role%d' % i, ('from technosphere', 'to environment'), dev=dev),
                             c.choose('name%d' % i, ('thing', 'transport'), dev=dev), amount,
                             unc if amount else 'none'))
    if c.flag('product last', dev=True):
        excs = excs[1:] + excs[:1]
    data = [dataset('d', 'market for thing', type=typ, exchanges=excs)]
    if c.flag('second', dev=True):
        d2 = deepcopy(data[0])
        d2['id'] = 'd2'
        data.append(d2)
    expected = deepcopy(data)
    c.state(repr(expected))
    if typ == 'market activity' and cls != 'waste':
        for d in expected:
            rp = [e for e in d['exchanges'] if e['type'] == 'reference product'][0]
            everything = all(e['amount'] <= 0 for e in d['exchanges'])
            if rp['amount'] < 0:
                d['exchanges'] = [scaled(e, -1) if everything or e['name'] == 'thing' else e for e in d['exchanges']]
    compare(c, expected, call(c, adjust_market_signs_for_allocatable_products, data))


def run(rep, tier):
    big = tier == 'thorough'
    b = 2 if big else 1
    global FULL
    FULL = big
    rep.add('links and consequential exchanges', explore('links and consequential exchanges', links, bound=1 if big else 2),
            '2 exchanges of 6 roles, 4 amounts, link or not, 7 property settings, 5 steps')
    rep.add('flip', explore('flip', flip, bound=b), '<=2 outputs, all distributions')
    rep.add('market signs', explore('market signs', signs, bound=b), '<=3 inputs')
