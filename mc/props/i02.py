"""I02 -- conversion to Brightway2 keeps the matrix."""
import importlib
import sys
import types
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref.check import Raised, call
from ..ref.common import close, same
from ..world import act, market, need
from . import l09

from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.io.brightway2 import Brightway2Converter, import_into_brightway2

FIELDS = ('code', 'name', 'location', 'economic scenario', 'start date', 'end date', 'technology level', 'filepath')


def matrix(data):
    """Net output of each product by each activity, and flows to and from the environment (as signed in Ocelot)."""
    tech, bio = {}, {}
    for d in data:
        for e in d['exchanges']:
            if e['type'] in ('reference product', 'byproduct', 'from technosphere'):
                if not e.get('code'):
                    continue
                k = e['code'], d['code']
                tech[k] = tech.get(k, 0) + e['amount'] * (-1 if e['type'] == 'from technosphere' else 1)
            elif 'environment' in e['type']:
                k = d['code'], e['name'], e['unit'], (e['compartment'], e['subcompartment'])
                bio[k] = bio.get(k, 0) + e['amount']
    return nonzero(tech), nonzero(bio)


def nonzero(m):
    return {k: v for k, v in m.items() if v}


def converted_matrix(c, data, name):
    tech, bio = {}, {}
    for d in data:
        for e in d['exchanges']:
            c.expect(e['type'] in ('production', 'technosphere', 'biosphere'), lambda: 'exchange %r' % e)
            if e['type'] == 'biosphere':
                k = d['code'], e['name'], e['unit'], tuple(e['categories'])
                bio[k] = bio.get(k, 0) + e['amount']
            else:
                c.expect(e['input'][0] == name, lambda: 'linked to database %r' % (e['input'],))
                k = e['input'][1], d['code']
                tech[k] = tech.get(k, 0) + e['amount'] * (1 if e['type'] == 'production' else -1)
    return nonzero(tech), nonzero(bio)


def judge(c, data, name='db'):
    before = deepcopy(data)
    got = call(c, lambda: list(Brightway2Converter.convert_to_brightway2(data, name)))
    c.expect(isinstance(got, list) and len(got) == len(before), lambda: 'conversion: %r' % (got,))
    c.expect(same(data, before), 'the converted database was changed')
    for d, g in zip(before, got):
        rp = [e for e in d['exchanges'] if e['type'] == 'reference product'][0]
        want = {f: d[f] for f in FIELDS}
        want.update(database=name, unit=rp['unit'], **{'reference product': rp['name'], 'production amount': rp['amount']})
        have = {k: g.get(k) for k in want}
        c.expect(same(want, have), lambda: 'activity %r, expected %r' % (have, want))
        n = sum(e['type'] == 'production' for e in g['exchanges'])
        c.expect(n == (1 if rp['amount'] else 0), lambda: '%s has %d production exchanges' % (d['name'], n))
    for w, h, what in zip(matrix(before), converted_matrix(c, got, name), ('technosphere', 'biosphere')):
        c.expect(set(w) == set(h) and all(close(w[k], h[k]) for k in w), lambda: '%s %r became %r' % (what, w, h))
    c.outcome((sorted((k, round(v, 9)) for k, v in matrix(before)[0].items()), len(matrix(before)[1])))
    return got


def linked(n, most):
    def scenario(c):
        """Any linked database of n datasets."""
        data = []
        for i in range(n):
            code = 'code%d' % i
            ex = [product('rp', 'p%d' % i, c.choose('product', (1., -1., 2.5), dev=i > 0), code=code, unit=('kg', 'MJ', 'm3')[i])]
            for j in range(c.choose('flows', range(most + 1))):
                kind = c.choose('kind', ('input', 'byproduct', 'to environment', 'from environment', 'dropped product', 'refinery gas'))
                amount = c.choose('amount', (0.5, -2., 0.)) if kind != 'dropped product' else 0.
                if kind in ('input', 'byproduct'):
                    t = c.choose('target', tuple(range(n)))
                    e = exchange('e%d' % j, 'from technosphere' if kind == 'input' else kind, 'p%d' % t, amount, 'triangular', code='code%d' % t)
                    if kind == 'byproduct':
                        e['byproduct classification'] = 'allocatable product'
                elif kind == 'refinery gas':
                    e = exchange('e%d' % j, 'from technosphere', kind, amount)
                elif kind == 'dropped product':
                    e = exchange('e%d' % j, kind, 'lost', amount)
                else:
                    e = exchange('e%d' % j, kind, 'CO2', amount, compartment=c.choose('compartment', ('air', 'water'), dev=True), subcompartment='urban')
                ex.append(e)
            if c.flag('product last', dev=True):
                ex = ex[1:] + ex[:1]
            data.append(dataset('id%d' % i, 'act %d' % i, ('GLO', 'CH', 'RoW')[i], exchanges=ex, code=code, **{'reference product': 'p%d' % i}))
        c.state(repr(data))
        judge(c, data, c.choose('name', ('db', 'other name'), dev=True))
    return scenario


def compartments(data):
    for d in data:
        for e in d['exchanges']:
            if 'environment' in e['type']:
                e.update(compartment='air', subcompartment='unspecified')
    return data


def cutoff(c):
    """What comes out of cut-off runs."""
    data = compartments(l09.database(c, False, True))
    config = c.choose('configuration', (cutoff_config, cutoff_config_ecoinvent_row), dev=True)
    c.state(repr(data))
    got = call(c, config, data)
    if isinstance(got, Raised):
        raise Skip('rejected')
    judge(c, got)


def consequential(c):
    """What comes out of consequential runs."""
    by = c.choose('by-product', (None, 'heat', 'slag'))
    ex = [need('electricity', 3.), exchange('em', 'to environment', 'CO2', 5.)]
    if by:
        ex.append(product('by', by, c.choose('amount', (.25, 0.)), pv=1., type='byproduct', classification='waste' if by == 'slag' else 'allocatable product'))
    data = [act('steel making', 'steel', 'GLO', pv=20., inputs=ex), act('power', 'electricity', 'GLO', pv=9., inputs=[need('steel', .5)]), act('boiler', 'heat', 'GLO'),
            act('treatment', 'slag', 'GLO', amount=-1., cls='waste', inputs=[need('heat', .5)])]
    data += [market(p, 'GLO', amount=-1. if p == 'slag' else 1., cls='waste' if p == 'slag' else 'allocatable product') for p in ('steel', 'electricity', 'heat', 'slag')]
    data = compartments(data)
    c.state(repr(data))
    got = call(c, consequential_config, data)
    c.expect(isinstance(got, list), lambda: 'rejected: %r' % (got,))
    if any(e['type'] == 'byproduct' and e['amount'] for d in got for e in d['exchanges']):
        again = call(c, lambda: list(Brightway2Converter.convert_to_brightway2(deepcopy(got), 'db')))
        if isinstance(again, Raised) and again.name == 'KeyError':
            c.outcome('byproduct')
            c.known_finding('consequential-byproducts-unlinked', 'by-products which the consequential model keeps have no code: conversion to Brightway2 stops with KeyError')
            return
        # if it is converted at all, then as a negative input from a producer of it
        c.expect(isinstance(again, list), lambda: repr(again))
        makes = {(d['reference product'], d['code']) for d in again}
        steel = [d for d in again if d['name'] == 'steel making'][0]
        t = [e for e in steel['exchanges'] if e['type'] == 'technosphere' and e['amount'] < 0]
        c.expect(len(t) == 1 and close(t[0]['amount'], -.25) and (by, t[0]['input'][1]) in makes, lambda: 'by-product %s became %r' % (by, t))
        return
    judge(c, got)


class Unlinked(Exception):
    pass


def imported(c):
    """The import writes a new database with all links, or nothing."""
    log = []
    existing = c.choose('existing', ((), ('mine',), ('mine', 'db')))
    unlinked = c.choose('unlinked', (0, 2))
    name = c.choose('name', ('db', 'mine', 7))
    installed = c.choose('installed', (True, False))

    class Importer:
        def __init__(self, name):
            self.name, self.strategies, self.data = name, ['normalize units', 'drop unspecified', 'assign products', 'strip nonsense'], None

        def apply_strategies(self):
            log.append(('strategies', tuple(self.strategies)))

        def match_database(self, name=None, *a, **kw):
            log.append(('match', name))

        def statistics(self):
            return len(self.data), 9, unlinked

        def write_database(self):
            log.append(('write', self.name, deepcopy(self.data)))
    bw2 = types.ModuleType('brightway2')
    bw2.projects = types.SimpleNamespace(current='default')
    bw2.databases = set(existing)
    bw2.Database = lambda n: ('database', n)
    base = types.ModuleType('bw2io.importers.base_lci')
    base.LCIImporter = Importer
    mods = {'brightway2': bw2, 'bw2io': types.ModuleType('bw2io'), 'bw2io.importers': types.ModuleType('bw2io.importers'), 'bw2io.importers.base_lci': base}
    if not installed:
        mods = {k: None for k in mods}
    data = [act('steel making', 'steel', 'GLO', inputs=[need('steel', .5, code='x')], code='x')]
    data[0]['exchanges'][0]['code'] = 'x'
    want = list(Brightway2Converter.convert_to_brightway2(deepcopy(data), name))
    before = deepcopy(data)
    c.state((existing, unlinked, name, installed))
    import ocelot.io.brightway2 as module
    old = {k: sys.modules.get(k) for k in mods}
    try:
        sys.modules.update(mods)
        importlib.reload(module)
        got = call(c, module.import_into_brightway2, data, name)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        importlib.reload(module)
    written = [x for x in log if x[0] == 'write']
    if not installed or name in existing or not isinstance(name, str):
        c.expect(isinstance(got, Raised), lambda: 'imported into %r: %r' % (name, got))
        c.expect(not log and data == before, 'something was done before the import was refused')
    elif unlinked:
        c.expect(not isinstance(got, Raised) and not written, lambda: 'written with unlinked exchanges: %r' % (got,))
    else:
        c.expect(got == ('database', name) and written == [('write', name, want)], lambda: 'wrote %r instead of %r: %r' % (written, want, got))
        c.expect(('match', 'biosphere3') in log, 'environment not linked')
    if installed and name == 'db' and name not in existing:
        # products are known already, so they must not be assigned again
        c.expect([x for x in log if x[0] == 'strategies'] == [('strategies', ('normalize units', 'drop unspecified', 'strip nonsense'))] and log[0][0] == 'strategies',
                 lambda: 'applied %r' % log)
    c.outcome((bool(written), isinstance(got, Raised)))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('one dataset', explore('one dataset', linked(1, 3), bound=1), 'linked databases of one dataset with <=3 flows besides the product')
    rep.add('two datasets', explore('two datasets', linked(2, 2 if big else 1), bound=1), 'linked databases of two datasets with <=%d flows besides the product' % (2 if big else 1))
    rep.add('three datasets', explore('three datasets', linked(3, 1), bound=1 if big else 0), 'linked databases of three datasets with <=1 flow besides the product')
    rep.add('cut-off runs', explore('cut-off runs', cutoff, bound=2 if big else 1), 'results of complete cut-off runs on the databases of L09 (some of the main choices)')
    rep.add('consequential runs', explore('consequential runs', consequential), 'results of complete consequential runs with and without by-products')
    rep.add('import', explore('import', imported, parallel=False), 'stand-in for Brightway2: installed or not, name in use or not, unlinked exchanges or not')
    rep.assume('Brightway2 is not installed here; its importer is a stand-in which records the calls')
