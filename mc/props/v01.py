"""V01 -- the gates reject exactly the databases which break a structural rule, and change nothing."""
import functools
import logging
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref.check import Raised, call
from ..ref.common import diff, same
from ..world import act, market, need

from ocelot.collection import Collection
from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.data_helpers import original_production_volume, production_volume, reference_products_as_string
from ocelot.transformations import (
    ensure_all_datasets_have_production_volume,
    ensure_ids_are_unique,
    ensure_mandatory_properties,
    ensure_production_exchanges_have_production_volume,
    validate_markets,
    variable_names_are_unique,
)
from ocelot.transformations.utils import get_single_reference_product
from ocelot.transformations.validation import (
    check_single_output_activity,
    ensure_markets_dont_consume_their_ref_product,
    ensure_markets_only_have_one_reference_product,
)
from ocelot.utils import validate_configuration
from ocelot.wrapper import TransformationWrapper

KINDS = ('product', 'useful', 'waste', 'input', 'emission')


def flow(c, i, wide):
    kind = c.choose('flow', KINDS)
    name = c.choose('name', ('a', 'b'))
    e = {'product': lambda: product('e%d' % i, name, 2., classification='allocatable product'),
         'useful': lambda: product('e%d' % i, name, 1., type='byproduct', classification='allocatable product'),
         'waste': lambda: product('e%d' % i, name, 1., type='byproduct', classification='waste'),
         'input': lambda: exchange('e%d' % i, 'from technosphere', name, 1.),
         'emission': lambda: exchange('e%d' % i, 'to environment', name, 1.)}[kind]()
    if c.flag('amounts to nothing', dev=True):
        e['amount'] = 0.
    if kind in ('product', 'useful'):
        v = c.choose('volume', (5., None, 0., 'empty'), dev=kind != 'product')
        if v == 'empty':
            e['production volume'] = {}
        elif v is not None:
            e['production volume'] = {'amount': v}
            if c.flag('links subtracted', dev=True):
                e['production volume']['original amount'] = v + 3.
        if kind == 'product':
            e['byproduct classification'] = c.choose('class', ('allocatable product', 'waste', 'recyclable'), dev=True)
    if kind in ('input', 'useful', 'waste') and c.flag('hard link', dev=kind != 'input'):
        e['activity link'] = 'somewhere'
    return e


def activity(c, i, flows, wide):
    n = c.choose('flows', flows)
    return dataset(c.choose('id', ('x', 'y')) if i else 'x', 'activity %d' % i,
                   type=c.choose('type', ('market activity', 'transforming activity', 'market group')),
                   exchanges=[flow(c, k, wide) for k in range(n)])


def rps(d):
    return [e for e in d['exchanges'] if e['type'] == 'reference product']


def useful(d):
    return [e for e in d['exchanges'] if e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product']


def consumes(d):
    rp = rps(d)[0]
    return any(e is not rp and e['name'] == rp['name'] and not e.get('activity link') for e in d['exchanges'])


def volume(d):
    r = rps(d)
    return r[0].get('production volume', {}).get('amount') if len(r) == 1 else None


def original(d):
    r = rps(d)
    v = r[0].get('production volume', {}) if len(r) == 1 else {}
    return v.get('original amount', v.get('amount'))


def gate(c, f, data, bad, what, error=None):
    before = deepcopy(data)
    got = call(c, f, data)
    if bad:
        c.expect(isinstance(got, Raised), lambda: '%s: accepted %r' % (what, before))
        c.expect(error is None or got.name in error, lambda: '%s: %r' % (what, got))
    else:
        c.expect(not isinstance(got, Raised), lambda: '%s: rejected %r: %r' % (what, before, got))
        c.expect(same(got, before), lambda: '%s: changed %s' % (what, diff(before, got)))
    return bad


def databases(flows, wide):
    def scenario(c):
        data = [activity(c, i, n, wide) for i, n in enumerate(flows)]
        c.state(repr(data))
        markets = [d for d in data if d['type'] == 'market activity']
        many = any(len(rps(d)) != 1 for d in markets)
        eats = not many and any(consumes(d) for d in markets)
        out = [
            gate(c, ensure_ids_are_unique, data, len({d['id'] for d in data}) < len(data), 'ids'),
            gate(c, ensure_markets_only_have_one_reference_product, data, many, 'market products', ['InvalidMarket']),
            gate(c, validate_markets, data, many or eats, 'markets', ['InvalidMarket', 'InvalidMarketExchange']),
            gate(c, ensure_production_exchanges_have_production_volume, data,
                 any('production volume' not in e for d in data for e in rps(d) + useful(d)), 'volumes', ['InvalidExchange']),
            gate(c, ensure_all_datasets_have_production_volume, data, not all(volume(d) for d in data), 'all volumes')]
        if not many:
            out.append(gate(c, ensure_markets_dont_consume_their_ref_product, data, eats, 'market inputs', ['InvalidMarketExchange']))
        for d in data:
            out.append(gate(c, check_single_output_activity, d, len(rps(d)) != 1 or bool(useful(d)), 'single output', ['InvalidMultioutputDataset']))
            got = call(c, get_single_reference_product, d)
            n = len(rps(d))
            c.expect(got is rps(d)[0] if n == 1 else isinstance(got, Raised), lambda: 'product of %r: %r' % (d, got))
            names = '|'.join(sorted(e['name'] for e in rps(d))) or 'None found'
            c.expect(reference_products_as_string(d) == names, lambda: '%r called %r' % (d, reference_products_as_string(d)))
            for f, want in ((production_volume, volume(d)), (original_production_volume, original(d))):
                for default in (None, 7.5):
                    got = call(c, f, d, default)
                    c.expect(same(got, default if want is None else want), lambda: '%s of %r is %r' % (f.__name__, d, got))
        c.outcome(tuple(out))
    return scenario


def variables(c):
    """Variable names in every place where there can be one."""
    used = []

    def name(o, where, other=False, dev=False):
        v = c.choose(where, (None, 'x', 'y'), dev=dev)
        if v:
            o['variable'] = v
            if not other:
                used.append(v)
        if c.flag('formula', dev=True):
            o['formula'] = '1 + 1'
        return o
    rp = name(product('rp', 'a', 1., pv=1.), 'product')
    name(rp['production volume'], 'volume')
    rp['properties'] = [name({'name': 'p%d' % i, 'amount': 1.}, 'property %d' % i) for i in range(2)]
    em = name(exchange('em', 'to environment', 'CO2', 1.), 'emission', dev=True)
    em['properties'] = [name({'name': 'q', 'amount': 1.}, 'property of emission', dev=True)]
    ds = dataset('d', 'name', exchanges=[rp, em], parameters=[name({'name': 'par%d' % i, 'amount': 1., 'id': 'p'}, 'parameter %d' % i) for i in range(2)])
    if c.flag('no parameters', dev=True):
        used = used[:-sum('variable' in p for p in ds['parameters'])] if any('variable' in p for p in ds['parameters']) else used
        ds['parameters'] = []
    other = dataset('o', 'other', exchanges=[name(product('rp', 'b', 1., pv=1.), 'other dataset', other=True)])
    data = [ds, other]
    if c.flag('second', dev=True):
        data = [other, ds]
    c.state(repr(data))
    c.outcome(gate(c, variable_names_are_unique, data, len(set(used)) < len(used), 'variables %r' % used, ['ParameterizationError']))


MANDATORY = ("carbon content fossil", "carbon content non-fossil", "dry mass", "water content", "water in wet mass", "wet mass")


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.msg)


def mandatory(c):
    def props(i):
        return [{'name': n, 'amount': 0.5, 'unit': 'kg', 'id': n} for n in c.subset('properties', MANDATORY + ('price',))] if i == 0 else \
               [{'name': n, 'amount': 0.5} for n in c.choose('others', ((), MANDATORY, ('price',), MANDATORY[:5]))]
    e = [exchange('e%d' % i, ('from technosphere', 'to environment')[i], 'flow %d' % i, 1.) for i in range(2)]
    want = []
    for i, x in enumerate(e):
        ps = props(i)
        if ps or c.flag('empty list', dev=True):
            x['properties'] = ps
        lost = [m for m in MANDATORY if m not in [p['name'] for p in ps]]
        if ps and lost:
            want.append(('name', x['name'], '; '.join(lost)))
    data = [dataset('d', 'name', exchanges=e)]
    before = deepcopy(data)
    c.state(repr(data))
    log, h = logging.getLogger('ocelot'), Capture()
    old = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        got = call(c, ensure_mandatory_properties, data)
    finally:
        log.removeHandler(h)
        log.setLevel(old)
    c.expect(same(got, before), lambda: 'changed: %r' % (got,))
    have = [tuple(m['data']) for m in h.got]
    c.expect(have == want, lambda: 'reported %r instead of %r' % (have, want))
    c.outcome(tuple(want))


def plain(data):
    return data


class Callable:
    def __call__(self, data):
        return data


MEMBERS = (('function', plain, True), ('lambda', lambda data: data, True), ('partial', functools.partial(plain), True), ('wrapped', TransformationWrapper(plain), True),
           ('filtered', TransformationWrapper(plain, plain), True), ('empty list', [], True), ('callable object', Callable(), False), ('partial of object', functools.partial(Callable()), False),
           ('number', 3, False), ('none', None, False), ('class', Callable, True), ('builtin', sorted, True))


def configurations(c):
    """Configurations are accepted exactly if every function can be described."""
    n = c.choose('members', (0, 1, 2, 3))
    ok, members = True, []
    for i in range(n):
        _, m, good = c.choose('member', MEMBERS, dev=i == 2)
        ok = ok and good
        nest = c.choose('inside', ('nothing', 'list', 'collection', 'tuple in list'), dev=i > 0)
        members.append({'nothing': m, 'list': [m], 'collection': Collection('c', m), 'tuple in list': [(m,)]}[nest])
    how = c.choose('as', ('list', 'collection', 'tuple'))
    config = members if how == 'list' else tuple(members) if how == 'tuple' else Collection('all', *members)
    c.state(([repr(x) for x in c.choices], how))
    got = call(c, validate_configuration, config)
    if ok:
        c.expect(got is config, lambda: 'rejected %r: %r' % (config, got))
    else:
        c.expect(isinstance(got, Raised) and got.name == 'InvalidTransformationFunction', lambda: 'accepted %r: %r' % (config, got))
    c.outcome((ok, n))


def models(c):
    """Each system model has all gates in front of everything else."""
    config = c.choose('configuration', (cutoff_config, cutoff_config_ecoinvent_row, consequential_config))
    data = [market('a', 'GLO'), act('making a', 'a', 'GLO', pv=5.), act('making b', 'b', 'GLO', pv=5., inputs=[need('a')]), market('b', 'GLO')]
    i = c.choose('dataset', (0, 1, 2, 3))
    d = data[i]
    what = c.choose('defect', (None, 'id', 'variable', 'two products', 'no product', 'consumes', 'no volume', 'by-product without volume'))
    bad = {None: [], 'id': ['IdenticalDatasets'], 'variable': ['ParameterizationError'], 'two products': ['InvalidMarket'], 'no product': ['InvalidMarket'],
           'consumes': ['InvalidMarketExchange'], 'no volume': ['InvalidExchange'], 'by-product without volume': ['InvalidExchange']}[what]
    if d['type'] != 'market activity' and what in ('two products', 'no product', 'consumes'):
        raise Skip(what)
    rp = d['exchanges'][0]
    if what == 'id':
        d['id'] = data[i - 1]['id']
    elif what == 'variable':
        rp['variable'] = rp['production volume']['variable'] = 'x'
    elif what == 'two products':
        d['exchanges'].append(product('rp2', 'c', 1., pv=1., classification='allocatable product'))
    elif what == 'no product':
        d['exchanges'] = []
    elif what == 'consumes':
        d['exchanges'].append(need(rp['name'], 0.5))
    elif what == 'no volume':
        del rp['production volume']
    elif what:
        d['exchanges'].append(product('by', 'a' if rp['name'] == 'b' else 'b', 1., type='byproduct', classification='allocatable product', price=1.))
    c.state((config.name, i, what))
    got = call(c, config, data)
    if bad:
        c.expect(isinstance(got, Raised) and got.name in bad, lambda: '%s in %s: %r' % (what, d['name'], got))
    else:
        c.expect(isinstance(got, list) and len(got) == 4, lambda: 'rejected: %r' % (got,))
    c.outcome((what, bool(bad)))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('one dataset', explore('one dataset', databases([(0, 1, 2, 3)], big), bound=2 if big else 1), 'one dataset of any type with <=3 flows of five kinds and two names, <=%d deviations' % (2 if big else 1))
    rep.add('two datasets', explore('two datasets', databases([(0, 1, 2), (0, 1)], big), bound=1 if big else 0), 'two datasets of any type, with same or different ids')
    rep.add('variables', explore('variables', variables, bound=2 if big else 1), 'two names in all places of a dataset, and in another one')
    rep.add('mandatory properties', explore('mandatory properties', mandatory, bound=1), 'all subsets of properties')
    rep.add('configurations', explore('configurations', configurations, bound=3 if big else 1), '<=3 members of twelve kinds, nested')
    rep.add('system models', explore('system models', models), 'the three configurations on databases with one defect in any dataset')
