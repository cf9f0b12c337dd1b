"""L11 -- corrections for named ecoinvent data change exactly these."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref import params
from ..ref.check import Raised, call, ds_equal
from ..ref.common import close, diff, same
from ..world import act, group, market, need

from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.transformations import fix_ecoinvent_parameters
from ocelot.transformations.cleanup import deparameterize
from ocelot.transformations.consequential.technology_levels import log_conflicting_technology_levels, switch_undefined_to_current
from ocelot.transformations.locations import (
    assign_fake_pv_to_confidential_datasets,
    check_no_row_market_groups,
    correct_natural_gas_pipeline_location,
    delete_suppliers_list,
    delete_whitelisted_zero_pv_market_datsets,
    drop_zero_pv_row_datasets,
)
from ocelot.transformations.parameterization import fix_known_bad_formula_strings, fix_specific_ecoinvent_issues

UNSOLD = tuple('market for ' + n for n in (
    'heat, diffusion absorption heat pump', 'heat, solar+electric, multiple-dwelling, for hot water', 'heat, solar+gas, multiple-dwelling, for hot water',
    'heat, solar+gas, one-family house, for combined system', 'heat, solar+gas, one-family house, for hot water',
    'heat, solar+wood, one-family house, for combined system', 'nitro-compound', 'petrol, 85% ethanol by volume from biomass', 'refinery gas',
    'spent oxychlor catalyst for ethylene dichloride production', 'waste emulsion paint, on wall'))
CONFIDENTIAL = (
    'anthraquinone production', 'burnt shale production', 'carboxymethyl cellulose production, powder', 'citric acid production',
    'esters of versatic acid production', 'feldspar production', 'latex production', 'layered sodium silicate production, SKS-6, powder',
    'particle board production, cement bonded', 'polycarboxylates production, 40% active substance', 'sodium perborate production, monohydrate, powder',
    'sodium perborate production, tetrahydrate, powder', 'sodium percarbonate production, powder', 'wood wool boards production, cement bonded',
    'zeolite production, powder', 'zeolite production, slurry, without water, in 50% solution state')
PIPELINE = 'transport, pipeline, long distance, natural gas'
OLD, NEW = 'RER w/o DE+NL+NO', 'RER w/o DE+NL+NO+RU'
REFINERY = 'petroleum refinery operation'
TYPES = ('transforming activity', 'market activity', 'market group')


def compare(c, what, expected, got):
    c.expect(isinstance(got, list) and len(got) == len(expected), lambda: '%s: %r instead of %r' % (what, got, expected))
    for e, g in zip(expected, got):
        p = ds_equal(e, g)
        c.expect(not p, lambda: '%s: %s' % (what, p))


NAMES = UNSOLD + CONFIDENTIAL + (PIPELINE, REFINERY)
NEAR = ('market for heat', 'latex production, dry', 'feldspar', 'Latex production', 'market for transport, pipeline, long distance, natural gas', 'operation', '')


def functions(c):
    """One dataset of every name, near-miss, type and place, next to a plain one."""
    name = c.choose('name', NAMES + NEAR)
    d = dataset('d', name, c.choose('location', ('GLO', 'RoW', 'CH', OLD, NEW)), type=c.choose('type', TYPES), exchanges=[
        product('rp', 'thing', 2., pv=c.choose('volume', (0., 5.), dev=True)),
        exchange('in', 'from technosphere', 'refinery gas', c.choose('refinery gas', (0., 2., -1.))),
        exchange('other', 'from technosphere', 'refinery gases', 0.),
        product('by', 'thing', 1., pv=3., type='byproduct', classification='allocatable product')])
    d['technology level'] = c.choose('level', ('current', 'undefined', 'old'), dev=True)
    d['reference product'] = 'thing'
    if c.flag('suppliers', dev=True):
        d['suppliers'] = c.choose('which', ([], [need('thing')]))
    plain = act('making', 'thing', 'GLO', pv=0., id='p')
    plain['reference product'] = 'thing'
    data = [d, plain]
    if c.flag('second', dev=True):
        data = [plain, d]
    c.state(repr(data))
    volume = d['exchanges'][0]['production volume']['amount']
    out = []
    for f, applies, change in (
            (delete_whitelisted_zero_pv_market_datsets, name in UNSOLD and d['location'] == 'GLO' and d['type'] == 'market activity', None),
            (assign_fake_pv_to_confidential_datasets, name in CONFIDENTIAL and d['type'] == 'transforming activity',
             lambda d: d['exchanges'][0]['production volume'].update(amount=1)),
            (correct_natural_gas_pipeline_location, name == PIPELINE and d['location'] == OLD and d['type'] == 'transforming activity',
             lambda d: d.update(location=NEW)),
            (fix_specific_ecoinvent_issues, name == REFINERY, lambda d: d.update(exchanges=[e for e in d['exchanges'] if e['name'] != 'refinery gas' or e['amount']])),
            (drop_zero_pv_row_datasets, d['location'] == 'RoW' and d['type'] == 'market activity' and volume == 0, None),
            (switch_undefined_to_current, d['type'] == 'transforming activity' and d['technology level'] == 'undefined',
             lambda d: d.update({'technology level': 'current'})),
            (log_conflicting_technology_levels, False, None),
            (delete_suppliers_list, True, lambda d: d.pop('suppliers', None))):
        if applies and volume and f in (delete_whitelisted_zero_pv_market_datsets, assign_fake_pv_to_confidential_datasets):
            # the lists are about datasets without production volume
            continue
        expected = deepcopy(data)
        if applies:
            if change:
                change([x for x in expected if x['id'] == 'd'][0])
            else:
                expected = [x for x in expected if x['id'] != 'd']
        compare(c, '%s on %s' % (f.__name__, name), expected, call(c, f, deepcopy(data)))
        out.append(applies)
    got = call(c, check_no_row_market_groups, deepcopy(data))
    bad = d['location'] == 'RoW' and d['type'] == 'market group'
    c.expect(bad == isinstance(got, Raised), lambda: 'market group in %s: %r' % (d['location'], got))
    if bad:
        c.expect(got.name == 'MarketGroupError', lambda: repr(got))
    else:
        compare(c, 'groups', data, got)
    c.outcome(tuple(out))


# formula in ecoinvent, what it means (documentation of ecospold2 functions), activity
FORMULAS = (
    ('thermoforming of plastic sheets', '1/014000000/50*0.946', 1 / 14000000 / 50 * 0.946),
    ('benzene chlorination', "UnitConversion(152000000, 'pound avoirdupois', 'kg')", 152000000 * 0.45359237),
    ('glued laminated timber production, for indoor use', 'AVERAGE(3.08E04;4.00E04;3.39E04)*(AVERAGE(367561;433458;449963)/AVERAGE(1408383;1631979;1717500))',
     (30800 + 40000 + 33900) / 3 * ((367561 + 433458 + 449963) / 3) / ((1408383 + 1631979 + 1717500) / 3)),
    ('cement production, alternative constituents 6-20%', 'ABS(blast_furnace_slag/ cement* APV_cement)', None))
ACTIVITIES = tuple(f[0] for f in FORMULAS) + ('thermoforming of plastic sheet', 'something else')


def formulas(c):
    """The four formulas which cannot be evaluated become the values they stand for, in the activities where they are known."""
    name = c.choose('activity', ACTIVITIES)
    k = c.choose('formula', (0, 1, 2, 3))
    owner, text, value = FORMULAS[k]
    cement = c.choose('cement', (4., 0.)) if k == 3 else 4.
    apv, slag = c.choose('amounts', ((6., 2.), (6., -2.))) if k == 3 else (6., 2.)
    if k == 3:
        value = abs(slag / cement * apv) if cement else 0
    form, total = c.choose('as', (('%s', lambda v: v), ('2 * %s', lambda v: 2 * v), ('%s + 3', lambda v: v + 3), ('%s - %s', lambda v: 0), ('4', lambda v: 4)))
    whole = form.replace('%s', text)
    where = c.choose('in', ('exchange', 'volume', 'property', 'parameter'))
    ds = dataset('d', name, exchanges=[product('rp', 'thing', 1., pv=2.), exchange('e', 'to environment', 'CO2', 5., properties=[{'name': 'p', 'id': 'p', 'amount': 1.}])],
                 parameters=[{'name': n, 'id': n, 'variable': v, 'amount': a, 'unit': 'kg'} for n, v, a in (
                     ('s', 'blast_furnace_slag', slag), ('c', 'cement', cement), ('a', 'APV_cement', apv))] + [{'name': 'x', 'id': 'x', 'amount': 1., 'unit': 'kg'}])
    places = {'exchange': lambda d: d['exchanges'][1], 'volume': lambda d: d['exchanges'][0]['production volume'],
              'property': lambda d: d['exchanges'][1]['properties'][0], 'parameter': lambda d: d['parameters'][3]}
    pick = places[where]
    pick(ds)['formula'] = whole
    again = c.choose('also in', (None,) + tuple(p for p in places if p != where), dev=True)
    if again:
        places[again](ds)['formula'] = whole
    if c.flag('elsewhere too', dev=True):
        ds['exchanges'][0]['formula'] = '1 + 2'
    other = dataset('o', c.choose('next to', ('neutral', owner), dev=True), exchanges=[product('rp', 'other', 1., pv=1.)])
    data = [ds, other]
    if c.flag('second', dev=True):
        data = [other, ds]
    before = deepcopy(data)
    c.state(repr(before))
    known = name == owner and '%s' in form
    got = call(c, fix_known_bad_formula_strings, deepcopy(data))
    c.expect(isinstance(got, list) and len(got) == 2, lambda: repr(got))
    for b, g in zip(before, got):
        f = pick(g).get('formula') if g['id'] == 'd' else None
        if known and g['id'] == 'd':
            c.expect(f != whole, lambda: '%s: %s unchanged' % (name, whole))
            pick(g)['formula'] = whole
            if again:
                c.expect(places[again](g).get('formula') == f, lambda: '%s: %s and %s' % (name, f, places[again](g).get('formula')))
                places[again](g)['formula'] = whole
        p = ds_equal(b, g)
        c.expect(not p, lambda: '%s: %s' % (name, p))
        if known and g['id'] == 'd':
            pick(g)['formula'] = f
            if again:
                places[again](g)['formula'] = f
    if not known:
        c.outcome('unchanged')
        return
    # the clean-up of parameters as a whole
    got = call(c, fix_ecoinvent_parameters, deepcopy(data))
    c.expect(isinstance(got, list) and len(got) == 2, lambda: repr(got))
    new = [d for d in got if d['id'] == 'd'][0]
    f = pick(new).get('formula')
    c.expect(f is not None, lambda: '%s: %s was lost' % (name, whole))
    try:
        v = params.evaluate(f, {'blast_furnace_slag': slag, 'cement': cement, 'apv_cement': apv})
    except Exception as e:
        c.expect(False, '%s became %s: %r' % (whole, f, e))
    if k == 1 and close(v, total(68949040.24)) and not close(v, total(value)):
        c.known_finding('pounds', 'benzene chlorination: 152000000 pounds become 68949040.24 kg instead of 68946040.24 kg (digits swapped; a test of the repository fixes the value)')
        c.outcome('pounds')
        return
    c.expect(abs(v - total(value)) <= 1e-6 * abs(total(value)), lambda: '%s became %s, which is %r instead of %r' % (whole, f, v, total(value)))
    c.outcome((k, form))


def bare(c):
    """De-parameterization takes all names and formulas and nothing else."""
    def some(o):
        for f in ('formula', 'variable'):
            if c.flag(f):
                o[f] = '1' if f == 'formula' else 'x'
        return o
    e = some(product('rp', 'thing', 1., uncertainty='normal'))
    if c.flag('volume'):
        e['production volume'] = some({'amount': c.choose('amount', (5., 0.))})
    e2 = exchange('e', 'to environment', 'CO2', 1., properties=[some({'name': 'p', 'amount': 1.})]) if c.flag('second') else None
    ds = dataset('d', 'name', exchanges=[e] + ([e2] if e2 else []), parameters=[{'name': 'a', 'amount': 1., 'variable': 'a'}] if c.flag('parameter') else [])
    if not ds['parameters'] and c.flag('no parameters'):
        del ds['parameters']
    c.state(repr(ds))
    want = deepcopy(ds)
    if 'parameters' in want:
        want['parameters'] = []
    for x in want['exchanges']:
        x.pop('properties', None)
        for o in (x, x.get('production volume', {})):
            o.pop('formula', None)
            o.pop('variable', None)
    got = call(c, deparameterize, ds)
    c.expect(same(got, want), lambda: '%r instead of %r' % (got, want))
    c.outcome(len(repr(want)))


def canonical(got, names):
    """Datasets by id, linked by id, without names."""
    at = {d.get('code'): d['id'] for d in got}
    out = []
    for d in got:
        d = deepcopy(d)
        d['name'] = names.get(d['name'], d['name'])
        d.pop('code', None)
        for e in d['exchanges']:
            if 'code' in e:
                e['code'] = at.get(e['code'], e['code'])
            for k in ('activity', 'name'):
                if k in e:
                    e[k] = names.get(e[k], e[k])
        d['exchanges'].sort(key=lambda e: (e['name'], e['type'], str(e.get('code')), repr(sorted(e.items(), key=str))))
        if 'suppliers' in d:
            del d['suppliers']
        out.append(d)
    return sorted(out, key=lambda d: (d['id'], d['location']))


def world(c):
    config = c.choose('configuration', (cutoff_config, cutoff_config_ecoinvent_row, consequential_config))
    k = c.choose('case', ('confidential', 'market', 'pipeline', 'group', 'refinery'))
    if config is consequential_config and k in ('pipeline', 'group'):
        raise Skip('not in this model')
    names, twin = {}, None
    users = [act('using', 'u', 'GLO', pv=9., inputs=[need('a', 2.)]), act('using', 'u', 'CH', pv=3., inputs=[need('a', 4.)]), market('u', 'GLO')]
    if k == 'confidential':
        name = c.choose('name', CONFIDENTIAL[:2] + CONFIDENTIAL[-1:])
        where = c.subset('in', ('GLO', 'CH', 'DE', 'CA'))
        if not where:
            raise Skip
        made = lambda n, v: [act(n, 'a', l, pv=v, id='c' + l) for l in where]
        rest = ([act('making', 'a', 'CH', pv=c.choose('volume', (1., 4., 0.)), id='plain')] if c.flag('another producer') else [])
        rest += [market('a', l) for l in c.choose('markets', (('GLO',), ('CH', 'GLO'), ('RER', 'GLO')))] + users
        data, twin = made(name, 0.) + rest, made('neutral', 1.) + rest
        names[name] = 'neutral'
    elif k == 'market':
        name = c.choose('name', UNSOLD[:2] + UNSOLD[6:9:2] + UNSOLD[-1:])
        where = c.subset('markets', ('GLO', 'CH', 'DE'))
        made = [act('making', 'a', l, pv=2. + i) for i, l in enumerate(c.choose('producers', (('GLO',), ('CH', 'GLO'), ('CH', 'DE'))))]
        m = [market('a', l, name=name, id='m' + l, pv=0.) for l in where]
        data = made + m + users
        twin = [d for d in deepcopy(data) if d['id'] != 'mGLO']
        for d in twin:
            if d['name'] == name:
                d['name'] = 'neutral market'
        names[name] = 'neutral market'
    elif k == 'pipeline':
        where = c.subset('in', (OLD, 'RU', 'DE', 'NL', 'GLO'))
        if OLD not in where:
            raise Skip
        def made(name, place):
            return [act(name, 'a', place if l == OLD else l, pv=1. + i, id='p%d' % i) for i, l in enumerate(where)]
        rest = [market('a', l) for l in c.choose('markets', (('GLO',), ('RER', 'GLO'), ('RU', 'GLO')))] + users
        data, twin = made(PIPELINE, OLD) + rest, made('neutral', NEW) + rest
        names[PIPELINE] = 'neutral'
    elif k == 'group':
        data = [act('making', 'a', 'GLO', pv=2.), market('a', 'GLO')] + users + [group('a', c.choose('group in', ('RoW', 'GLO', 'RER')))]
        if data[-1]['location'] == 'GLO':
            data[1]['location'] = 'CH'
            data[0]['location'] = 'CH'
    else:
        gas = [need('refinery gas', a, id='g%d' % i) for i, a in enumerate(c.choose('refinery gas', ((0.,), (2.,), (0., 2.), ())))]
        name = c.choose('name', (REFINERY, 'another operation'))
        data = [act(name, 'a', 'GLO', pv=5., inputs=gas + [exchange('z', 'to environment', 'CO2', 0.)], id='r'), market('a', 'GLO'), act('making', 'refinery gas', 'GLO', pv=2.), market('refinery gas', 'GLO', name='gas')] + users
        twin = deepcopy(data)
        if name == REFINERY:
            twin[0]['name'] = 'neutral'
            names[name] = 'neutral'
            twin[0]['exchanges'] = [e for e in twin[0]['exchanges'] if e['name'] != 'refinery gas' or e['amount']]
    if c.flag('reversed', dev=True):
        data, twin = data[::-1], twin[::-1] if twin is not None else None
    data, twin = deepcopy(data), deepcopy(twin)
    c.state((config.name, repr(data)))
    got = call(c, config, data)
    if k == 'group':
        bad = [d for d in data if d['type'] == 'market group'][0]['location'] == 'RoW'
        c.expect(isinstance(got, Raised) and got.name == 'MarketGroupError' if bad else isinstance(got, list), lambda: 'market group: %r' % (got,))
        c.outcome((k, bad))
        return
    want = call(c, config, twin)
    if isinstance(want, Raised) or isinstance(got, Raised):
        c.expect(isinstance(want, Raised) and isinstance(got, Raised) and want.name == got.name, lambda: '%r instead of %r' % (got, want))
        c.outcome((k, want.name))
        return
    a, b = canonical(got, names), canonical(want, names)
    if k == 'pipeline':
        c.expect(any(d['location'] == NEW for d in got), 'place not corrected')
    c.expect(len(a) == len(b), lambda: '%r instead of %r' % ([(d['id'], d['location']) for d in a], [(d['id'], d['location']) for d in b]))
    for x, y in zip(a, b):
        p = diff(y, x)
        c.expect(not p, lambda: '%s: %r' % (x['id'], p[:4]))
    c.outcome((k, len(a), sum(len(d['exchanges']) for d in a)))


def run(rep, tier):
    big = tier == 'thorough'
    n = 3 if big else 1
    rep.add('functions', explore('functions', functions, bound=n), 'each function on each of %d names and near-misses, 3 types, 5 places, <=%d deviations' % (len(NAMES + NEAR), n))
    rep.add('formulas', explore('formulas', formulas, bound=3), 'four formulas in six activities, four places, five forms')
    rep.add('without parameters', explore('without parameters', bare), 'one dataset with names and formulas everywhere')
    rep.add('system models', explore('system models', world), 'complete runs of the three models on a database with such data and on its equivalent without')
    rep.assume('the lists of names are part of the specification')
