"""P03 -- references by id become names of the same quantity; production volumes become fixed."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref import params, unc
from ..ref.check import Raised, call
from ..ref.common import close, diff
from ..world import market

from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.transformations.parameterization import create_pv_parameters, recalculate, replace_implicit_references

E1, E2, E3 = ('%08d-aaaa-4bbb-8ccc-0123456789ab' % i for i in (1, 2, 3))
P1, Q1, Q2 = '00000000-aaaa-4bbb-8ccc-00000000000f', '0000000d-aaaa-4bbb-8ccc-00000000000d', '0000000e-aaaa-4bbb-8ccc-00000000000e'
MISSING = 'ffffffff-ffff-4fff-8fff-ffffffffffff'

# how a formula can refer to something, and the path of the quantity
TARGETS = {
    'exchange': ("Ref('%s')" % E1, ('e', 0)),
    'volume': ("Ref('%s', 'ProductionVolume')" % E1, ('v', 0)),
    'other exchange': ("ref('%s')" % E2, ('e', 1)),
    'other volume': ("ref('%s', 'ProductionVolume')" % E2, ('v', 1)),
    'parameter': ("Ref('%s')" % P1, ('p', 0)),
    'property': ("Ref('%s', '%s')" % (E1, Q1), ('q', 0, 0)),
    'property of other': ("Ref('%s', '%s')" % (E2, Q1), ('q', 1, 0)),
    'second property': ("ref('%s', '%s')" % (E1, Q2), ('q', 0, 1)),
}
BROKEN = {
    'no such exchange': "Ref('%s')" % MISSING,
    'no such volume': "Ref('%s', 'ProductionVolume')" % MISSING,
    'exchange without volume': "Ref('%s', 'ProductionVolume')" % E3,
    'volume of a parameter': "Ref('%s', 'ProductionVolume')" % P1,
}


def get(ds, path):
    if path[0] == 'p':
        return ds['parameters'][path[1]]
    e = ds['exchanges'][path[1]]
    return {'e': lambda: e, 'v': lambda: e['production volume'], 'q': lambda: e['properties'][path[2]]}[path[0]]()


PATHS = [t[1] for t in TARGETS.values()]


def world(c, named_dev=True):
    ds = dataset('d', 'an activity', exchanges=[
        product(E1, 'thing', 2., pv=11.), product(E2, 'by', 3., pv=13., type='byproduct'), exchange(E3, 'to environment', 'CO2', 5.)],
        parameters=[{'name': 'p', 'id': P1, 'amount': 17., 'unit': 'kg'}, {'name': 'o', 'id': 'other', 'amount': 19., 'unit': 'kg', 'variable': 'known'}])
    ds['exchanges'][0]['properties'] = [{'name': 'dry mass', 'id': Q1, 'amount': 23.}, {'name': 'wet mass', 'id': Q2, 'amount': 29.}]
    ds['exchanges'][1]['properties'] = [{'name': 'dry mass', 'id': Q1, 'amount': 31.}]
    return ds


def references(nref):
    def scenario(c):
        ds = world(c)
        used = []
        for i in range(nref):
            used.append(c.choose('reference', tuple(TARGETS)))
        for path in sorted({TARGETS[u][1] for u in used}):
            if c.flag('%r named' % (path,), dev=True):
                get(ds, path)['variable'] = 'Name_%s' % '_'.join(map(str, path))
        coef = (2, 3, 5)
        text = ' + '.join('%d*%s' % (coef[i], TARGETS[u][0]) for i, u in enumerate(used))
        if c.flag('and a name', dev=True):
            text += ' + known'
        where = c.choose('formula in', (('e', 2), ('p', 1), ('v', 1), ('q', 1, 0), ('e', 0)))
        o = get(ds, where)
        if where in [TARGETS[u][1] for u in used] or (where == ('p', 1) and 'known' in text):
            raise Skip
        o['formula'] = text
        second = c.choose('second formula', (None,) + tuple(TARGETS), dev=True)
        if second:
            if where == ('q', 0, 1) or 'second property' in used or second == 'second property':
                raise Skip
            ds['exchanges'][0]['properties'][1]['formula'] = '7*' + TARGETS[second][0]
        broken = c.choose('broken', (None,) + tuple(BROKEN), dev=True)
        if broken:
            o['formula'] += ' - ' + BROKEN[broken]
        before = deepcopy(ds)
        c.state(repr(before))
        got = call(c, replace_implicit_references, [ds])
        if broken:
            c.expect(isinstance(got, Raised), lambda: '%r accepted: %r' % (broken, got))
            c.outcome(broken)
            return
        c.expect(isinstance(got, list) and len(got) == 1, lambda: repr(got))
        new = got[0]
        env = {}
        for a, b in zip(unc.objects(before), unc.objects(new)):
            skip = ('formula', 'variable', 'properties', 'production volume')
            p = diff({k: v for k, v in a.items() if k not in skip}, {k: v for k, v in b.items() if k not in skip})
            c.expect(not p, lambda: repr(p))
            c.expect('variable' not in a or a['variable'] == b.get('variable'), lambda: 'renamed %r' % b)
            if 'variable' in b:
                c.expect(b['variable'] not in env, lambda: '%r twice' % b['variable'])
                env[b['variable']] = b['amount']
            c.expect(('formula' in a) == ('formula' in b), 'formula appeared or disappeared')
        want = sum(coef[i] * get(before, TARGETS[u][1])['amount'] for i, u in enumerate(used)) + (19. if 'known' in text else 0)
        f = get(new, where)['formula']
        try:
            v = params.evaluate(f, env)
        except Exception as e:
            c.expect(False, '%r became %r: %r' % (text, f, e))
        c.expect(close(v, want), lambda: '%r became %r: %r instead of %r' % (text, f, v, want))
        if second:
            f = new['exchanges'][0]['properties'][1]['formula']
            v = params.evaluate(f, env)
            c.expect(close(v, 7 * get(before, TARGETS[second][1])['amount']), lambda: 'second formula became %r: %r' % (f, v))
        c.outcome((text, f))
        again = call(c, replace_implicit_references, deepcopy(got))
        c.expect(again == got, 'replacing twice changes something')
    return scenario


def volumes(c):
    """Production volumes lose their parameterization, quantities keep their names and values."""
    ds = world(c)
    ds['exchanges'][2]['formula'] = '0*known'
    kinds = []
    for i in (0, 1):
        k = c.choose('volume %d' % i, ('fixed', 'formula', 'variable', 'both', 'absent'))
        kinds.append(k)
        if k == 'absent':
            del ds['exchanges'][i]['production volume']
            continue
        pv = ds['exchanges'][i]['production volume']
        if c.flag('nothing produced', dev=True):
            pv['amount'] = 0.
        if k in ('variable', 'both'):
            pv['variable'] = 'vol%d' % i
            ds['exchanges'][2]['formula'] += '+%d*vol%d' % (i + 2, i)
        if k in ('formula', 'both'):
            pv['formula'] = 'known*%d' % (2 + i)
        if c.flag('uncertain', dev=True):
            pv['uncertainty'] = {'type': 'triangular', 'minimum': 0., 'mode': pv['amount'], 'maximum': 99.}
            pv['comment'] = 'c'
    use = c.choose('second uses first', (False, True), dev=True)
    if use:
        if kinds[0] not in ('variable', 'both') or kinds[1] not in ('both', 'formula'):
            raise Skip
        ds['exchanges'][1]['production volume']['formula'] = 'vol0+1'
    before = deepcopy(ds)
    c.state(repr(before))
    got = call(c, create_pv_parameters, [ds])
    c.expect(isinstance(got, list) and len(got) == 1, lambda: repr(got))
    new = got[0]
    env = {}
    for i, (a, b) in enumerate(zip(before['exchanges'], new['exchanges'])):
        pa, pb = a.get('production volume'), b.get('production volume')
        if pa is not None:
            p = diff({k: v for k, v in pa.items() if k not in ('formula', 'variable')}, pb)
            c.expect(not p, lambda: 'production volume: %r' % p)
        p = diff({k: v for k, v in a.items() if k != 'production volume'}, {k: v for k, v in b.items() if k != 'production volume'})
        c.expect(not p and (pa is None) == (pb is None), lambda: repr(p))
    old, add = new['parameters'][:2], new['parameters'][2:]
    c.expect(old == before['parameters'], 'existing parameters changed')
    want = {e['production volume']['variable']: e['production volume'] for e in before['exchanges']
            if 'variable' in e.get('production volume', {})}
    c.expect(sorted(want) == sorted(p.get('variable') for p in add), lambda: 'parameters: %r' % add)
    ids = [p['id'] for p in new['parameters']]
    c.expect(len(set(ids)) == len(ids), 'parameter ids not unique')
    for p in add:
        w = want[p['variable']]
        c.expect(p['amount'] == w['amount'] and p.get('formula') == w.get('formula') and p['unit'] == 'kg' and 'name' in p,
                 lambda: '%r became %r' % (w, p))
    c.expect({k: v for k, v in before.items() if k not in ('exchanges', 'parameters')} == {k: v for k, v in new.items() if k not in ('exchanges', 'parameters')},
             'dataset metadata changed')
    # recalculation leaves the volumes alone but uses their formulas where they are named
    for p in [o for o in unc.objects(before)]:
        if 'variable' in p:
            env[p['variable']] = None
    flow = params.environment(before)
    r = call(c, recalculate, deepcopy(new))
    c.expect(isinstance(r, dict), lambda: repr(r))
    c.expect(close(r['exchanges'][2]['amount'], params.evaluate(before['exchanges'][2]['formula'], flow)), 'flow has another amount')
    for a, b in zip(before['exchanges'], r['exchanges']):
        c.expect(a.get('production volume', {}).get('amount') == b.get('production volume', {}).get('amount'), 'volume changed by recalculation')
    c.outcome((tuple(kinds), r['exchanges'][2]['amount']))


MODELS = {'cutoff': cutoff_config, 'cutoff, ecoinvent RoW': cutoff_config_ecoinvent_row, 'consequential': consequential_config}


def models(c):
    """Every system model fixes the volumes before it recalculates datasets."""
    name = c.choose('system model', tuple(MODELS))
    amounts = {'steam': 1., 'cold': 2.}
    src = dataset('src', 'making both', exchanges=[
        product('id-' + p, p, a, pv=100. * a, classification='allocatable product', variable=p) for p, a in amounts.items()]
        + [exchange('em', 'to environment', 'CO2', 0.)],
        parameters=[{'name': 'o', 'id': 'other', 'amount': 19., 'unit': 'kg', 'variable': 'known'}])
    flow, env = '2*steam + 3*cold', {'known': 19.}
    for i, p in enumerate(amounts):
        k = c.choose('volume of ' + p, ('fixed', 'formula', 'variable', 'both'))
        pv = src['exchanges'][i]['production volume']
        if k in ('variable', 'both'):
            pv['variable'] = 'vol_' + p
            flow += ' + vol_%s/100' % p
        if k in ('formula', 'both'):
            # another amount than the volume has, which changes with the products
            pv['formula'] = c.choose('formula of ' + p, ('known*2', '40*steam + 10*cold', '500*' + p))
        env['vol_' + p] = pv.get('formula', repr(pv['amount']))
    src['exchanges'][2]['formula'] = flow
    src['exchanges'][2]['amount'] = 8.
    data = [src] + [market(p, 'GLO') for p in amounts]
    # produced volumes of the markets
    if c.flag('reversed', dev=True):
        data = data[::-1]
    before = deepcopy(data)
    c.state((name, repr(before)))
    got = call(c, MODELS[name], data)
    c.expect(isinstance(got, list), lambda: '%s rejected a valid database: %r' % (name, got))
    parts = {e['name']: (d, e) for d in got for e in d['exchanges'] if d['name'] == 'making both' and e['type'] == 'reference product'}
    c.expect(sorted(parts) == sorted(amounts) and sum(d['name'] == 'making both' for d in got) == 2, lambda: '%s: products %s' % (name, sorted(parts)))
    for d in got:
        for e in d['exchanges']:
            left = {'formula', 'variable'} & set(e.get('production volume', ()))
            c.expect(not left, lambda: '%s: %s keeps %s of its production volume' % (name, d['name'], sorted(left)))
    out = []
    for p, (d, e) in sorted(parts.items()):
        c.expect(e['production volume']['amount'] == 100. * amounts[p], lambda: '%s: volume of %s is %r' % (name, p, e['production volume']['amount']))
        now = {q: a if q == p else 0. for q, a in amounts.items()}
        known = dict(now, known=19.)
        for q in amounts:
            known['vol_' + q] = eval(env['vol_' + q], {}, known)
        want = eval(flow, {}, known) / amounts[p]
        have = [x['amount'] for x in d['exchanges'] if x['id'] == 'em']
        c.expect(len(have) == 1 and close(have[0], want), lambda: '%s: flow of %s is %r instead of %r' % (name, p, have, want))
        out.append((p, want))
    c.outcome((name, tuple(out)))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('one reference', explore('one reference', references(1), bound=4 if big else 3), 'one reference of every kind, <=%d deviations' % (4 if big else 3))
    rep.add('two references', explore('two references', references(2), bound=3 if big else 2), 'two references in one formula')
    if big:
        rep.add('three references', explore('three references', references(3), bound=1), 'three references in one formula')
    rep.add('production volumes', explore('production volumes', volumes, bound=3), 'two parameterized production volumes')
    rep.add('system models', explore('system models', models, bound=1), 'the three system models on a producer of two products with all parameterizations of their volumes')
