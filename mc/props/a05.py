"""A05 -- recycled content cut-off."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, exchange, product
from ..ref.alloc import scaled
from ..ref.check import Raised, call, ds_equal
from ..ref.common import aliased, same

from ocelot.transformations.cutoff import (
    flip_non_allocatable_byproducts,
    handle_waste_outputs,
    rename_recycled_content_products_after_linking,
)
from ocelot.transformations.identifying import add_unique_codes
from ocelot.transformations.locations.linking import link_consumers_to_recycled_content_activities
from ocelot.transformations.locations.markets import add_recycled_content_suppliers_to_markets
from ocelot.transformations.utils import label_reference_product

SUFFIX = ', Recycled Content cut-off'
COMMON = ('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date',
          'technology level', 'dataset author', 'data entry')
NAMES = ('scrap', 'paper waste', 'scrap, old')


def make(c, i, wide):
    excs = [product('rp%d' % i, 'product %d' % i, 1., pv=4., classification='allocatable product')]
    n = c.choose('outputs%d' % i, (0, 1, 2))
    used = set()  # names of the outputs of one activity differ
    for k in range(n):
        name = c.choose('name%d%d' % (i, k), [x for x in NAMES[:3 if wide else 2] if x not in used])
        used.add(name)
        if c.flag('comma', dev=True):
            name += ', mixed'
        cls = c.choose('class%d%d' % (i, k), ('recyclable', 'waste'))
        excs.append(product('b%d%d' % (i, k), name, 0.5 + k, type='byproduct', classification=cls,
                            uncertainty=c.choose('unc', ('none', 'triangular', 'lognormal', 'uniform', 'normal', 'undefined'), dev=True)))
        if c.flag('formula', dev=True):
            excs[-1]['formula'] = 'x * 2'
    if c.flag('consumes%d' % i):
        excs.append(exchange('in%d' % i, 'from technosphere', 'scrap', 0.75))
    if c.flag('infix%d' % i, dev=True):
        excs.append(exchange('mid%d' % i, 'from technosphere', 'scrap' + SUFFIX + ', sorted', 0.25))
    return dataset('id%d' % i, 'activity %d' % i, location=c.choose('location%d' % i, ('GLO', 'CH'), dev=True),
                   exchanges=excs, **{'start date': '20%02d-01-01' % i})


def scenario_for(n, wide):
    def scenario(c):
        data = [make(c, i, wide) for i in range(c.choose('producers', range(1, n + 1)))]
        market = c.choose('market', ('GLO', None, 'CH', 'GLO for other'))
        if market:
            name = 'other' if 'other' in market else 'scrap'
            data.insert(c.choose('market position', (0, len(data)), dev=True), dataset(
                'mk', 'market for ' + name, location=market[:3].strip(), type='market activity', exchanges=[
                    product('m', name, 1., pv=2., classification='recyclable')]))
        before = deepcopy(data)
        c.state(repr(before))
        got = call(c, lambda: handle_waste_outputs(data))
        c.expect(isinstance(got, list), lambda: 'failed: %r' % got)
        # 1. what changed in the existing datasets
        expected = deepcopy(before)
        producers = {}
        for d in expected:
            for e in d['exchanges']:
                if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable':
                    e['name'] += SUFFIX
                    producers.setdefault(e['name'], []).append((d, e))
        old = {d['id']: d for d in got if not d['name'].endswith(SUFFIX)}
        new = [d for d in got if d['name'].endswith(SUFFIX)]
        c.expect(len(old) == len(expected) and len(got) == len(old) + len(new), 'datasets were lost or duplicated')
        for e in expected:
            p = ds_equal(e, old.get(e['id']), ordered=False)
            c.expect(not p, lambda: 'dataset %s: %s' % (e['id'], p[:5]))
        # 2. exactly one supplier for each recyclable, free of burdens
        c.expect(sorted(d['name'] for d in new) == sorted(producers),
                 lambda: 'suppliers %r for %r' % ([d['name'] for d in new], sorted(producers)))
        for d in new:
            ok = False
            for src, e in producers[d['name']]:
                want = {k: src[k] for k in COMMON}
                want.update(name=d['name'], location='GLO', type='transforming activity', parameters=[],
                            exchanges=[{'amount': 1, 'id': e['id'], 'name': d['name'], 'unit': e['unit'],
                                        'tag': 'intermediateExchange', 'type': 'reference product',
                                        'production volume': {'amount': 4}}])
                want['reference product'] = d['name']
                ok = ok or same(want, d)
            c.expect(ok, lambda: 'recycled content supplier is not a plain one-unit producer: %r' % d)
        c.expect(not aliased(*got), 'datasets share mutable state')
        # 3. linking
        got = call(c, lambda: flip_non_allocatable_byproducts(got))
        c.expect(isinstance(got, list), lambda: 'flip failed: %r' % got)
        for d in before:
            g = [x for x in got if x['id'] == d['id'] and x['name'] == d['name']][0]
            for e in d['exchanges']:
                if e['type'] == 'byproduct':
                    w = scaled(e, -1)
                    w['type'] = 'from technosphere'
                    del w['byproduct classification']
                    if 'formula' in w:
                        w['formula'] = '-1 * (%s)' % e['formula']
                    if e['byproduct classification'] == 'recyclable':
                        w['name'] += SUFFIX
                    h = [x for x in g['exchanges'] if x['id'] == e['id']]
                    c.expect(len(h) == 1 and same(w, h[0]), lambda: 'output %s became %r, expected %r' % (e['id'], h, w))
        got = add_unique_codes(label_reference_product(got))
        c.step(3)
        got = call(c, lambda: link_consumers_to_recycled_content_activities(got))
        c.expect(isinstance(got, list), lambda: 'linking failed: %r' % got)
        codes = {d['name']: d['code'] for d in got if d['name'].endswith(SUFFIX)}
        for d in got:
            for e in d['exchanges']:
                if e['type'] == 'from technosphere' and e['name'] in codes:
                    c.expect(e.get('code') == codes[e['name']], lambda: 'recyclable %s not linked to its supplier' % e['name'])
                else:
                    c.expect('code' not in e, lambda: '%s linked to %r' % (e['name'], e.get('code')))
        got = call(c, lambda: add_recycled_content_suppliers_to_markets(got))
        c.expect(isinstance(got, list), lambda: 'market supply failed: %r' % got)
        for d in got:
            if d['type'] != 'market activity':
                continue
            sup = [s['code'] for s in d.get('suppliers', [])]
            rc = codes.get(d['reference product'] + SUFFIX)
            want = [rc] if rc and d['location'] == 'GLO' else []
            c.expect(sup == want, lambda: 'market %s (%s) supplied by %r, expected %r' % (d['name'], d['location'], sup, want))
        # 4. the suffix disappears from flows, and only from flows
        snap = deepcopy(got)
        got = call(c, lambda: rename_recycled_content_products_after_linking(got))
        c.expect(isinstance(got, list) and len(got) == len(snap), lambda: 'renaming failed: %r' % got)
        for a, b in zip(snap, got):
            for e in a['exchanges']:
                if e['name'].endswith(SUFFIX):
                    e['name'] = e['name'][:-len(SUFFIX)]
            if a['reference product'].endswith(SUFFIX):
                a['reference product'] = a['reference product'][:-len(SUFFIX)]
            a.pop('suppliers', None)
            b = {k: v for k, v in b.items() if k != 'suppliers'}
            p = ds_equal(a, b)
            c.expect(not p, lambda: 'after renaming: %s' % p[:5])
        c.outcome(sorted((d['name'], tuple((e['name'], e.get('code')) for e in d['exchanges'])) for d in got))
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('chain', explore('chain', scenario_for(3 if big else 2, big), bound=1),
            '<=%d producers with <=2 waste or recyclable outputs over %d names, 4 market settings, <=1 deviation' % (
                3 if big else 2, 3 if big else 2))
