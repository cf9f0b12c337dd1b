"""L09 -- a complete cut-off run gives a closed, normalised, conserving database."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref import link, pipeline
from ..ref.check import Raised, call
from ..ref.common import close
from ..world import act, group, market, need

from ocelot.configuration import cutoff_config, cutoff_config_ecoinvent_row


FULL = False


def integrity(c, got, before):
    """What must hold for every linked database, computed from the result alone."""
    codes = {d['code']: d for d in got}
    c.expect(len(codes) == len(got), 'two datasets with one code')
    for d in got:
        what = '%s | %s | %s' % (d['name'], d.get('reference product'), d['location'])
        rps = [e for e in d['exchanges'] if e['type'] == 'reference product']
        c.expect(len(rps) == 1, lambda: '%s: %d reference products' % (what, len(rps)))
        rp = rps[0]
        c.expect(close(abs(rp['amount']), 1), lambda: '%s: makes %r' % (what, rp['amount']))
        c.expect(rp['name'] == d['reference product'] and rp['code'] == d['code'], lambda: '%s: product %r' % (what, rp))
        for e in d['exchanges']:
            c.expect(e['type'] in ('reference product', 'dropped product', 'from technosphere', 'from environment', 'to environment'),
                     lambda: '%s: %s left as %s' % (what, e['name'], e['type']))
            if e['type'] == 'dropped product':
                c.expect(not e['amount'], 'dropped product with an amount')
            if e['type'] != 'from technosphere':
                continue
            s = codes.get(e.get('code'))
            c.expect(s is not None, lambda: '%s: input %s has no supplier' % (what, e['name']))
            c.expect(s['reference product'] == e['name'], lambda: '%s: input %s comes from a supplier of %s' % (what, e['name'], s['reference product']))
        if d['type'] in ('market activity', 'market group'):
            own = sum(e['amount'] for e in d['exchanges'] if e['type'] == 'from technosphere' and e['name'] == rp['name'] and not e.get('activity link'))
            c.expect(not own or close(own, rp['amount']), lambda: '%s: sells %r of %r' % (what, rp['amount'], own))
        pv = rp['production volume']['amount']
        c.expect(pv >= 0, lambda: '%s: volume %r' % (what, pv))


def conservation(c, got, before, expected):
    """Every flow of an economically allocated activity is still there, once."""
    for d in before:
        prods = link.useful(d)
        if d['type'] != 'transforming activity' or any(e['amount'] <= 0 for e in prods) or sum(e['type'] == 'reference product' for e in prods) != 1:
            continue
        parts = [(x, link.rp_of(x)) for x in got if x['id'] == d['id'] and not x['name'].endswith(link.SUFFIX)]
        if any(x['id'] == d['id'] for x in before if x is not d):
            continue
        if sum(x['id'] == d['id'] and not x['name'].endswith(link.SUFFIX) for x in expected.data) < sum(1 for e in prods if e['amount']):
            # rest-of-world parts without production volume are deleted
            continue
        amounts = {e['id']: e['amount'] for e in prods}
        for e in d['exchanges']:
            if e in prods:
                continue
            if any(p['name'] == 'consequential' for p in e.get('properties', ())):
                want = 0.
            else:
                want = -e['amount'] if e['type'] == 'byproduct' else e['amount']
            have = sum(y['amount'] * amounts[rp['original id']] for x, rp in parts for y in x['exchanges'] if y.get('id') == e['id'])
            # an input which no market can supply is taken out completely (the model decides when)
            gone = e['type'] not in ('to environment', 'from environment') and not have
            c.expect(gone or close(have, want), lambda: '%s: %s of %s is %r, was %r' % (d['name'], e['type'], e['name'], have, want))


def judge(c, data, small=False):
    config = c.choose('configuration', (cutoff_config_ecoinvent_row,) if small else (cutoff_config, cutoff_config_ecoinvent_row), dev=True)
    before = deepcopy(data)
    c.state(repr(before))
    try:
        expected = pipeline.cutoff(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: config(data))
    if isinstance(expected, link.Rejected):
        c.outcome(str(expected))
        c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
        return None
    c.expect(isinstance(got, list), lambda: 'rejected a valid database: %r' % got)
    integrity(c, got, before)
    conservation(c, got, before, expected)
    problems = link.compare(expected, got)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    codes = {d['code']: (d['name'], d['location']) for d in got}
    c.outcome(sorted((d['name'], d['location'], sorted((e['type'], e['name'], codes.get(e.get('code')), round(e['amount'], 9)) for e in d['exchanges'])) for d in got))
    return got


def database(c, wide, small=False):
    """Steel, heat and power, slag and scrap."""
    D = dict(dev=not wide)
    some = (lambda label, opts: c.choose(label, opts[-2:])) if small else c.choose
    data = []
    # steel: one product, waste and recyclable outputs, a hard link
    steel = c.choose('steel in', (('GLO',), ('CH', 'GLO')))
    outs = some('steel outputs', ((), ('slag', 'scrap'), ('slag',)) + ((('scrap',),) if FULL else ()))
    volume = c.choose('steel volume', (50., 20.), dev=True) if len(steel) > 1 else 50.
    hl = some('hard link', (None, 'chp', 'm/electricity/GLO', 'burn'))
    for i, l in enumerate(steel):
        ex = [need('electricity', 3., 'lognormal'), exchange('em', 'to environment', 'CO2', 5., 'triangular'),
              exchange('land', 'from environment', 'land', 0.5)]
        if hl:
            ex.append(need('slag' if hl == 'burn' else 'electricity', -0.5 if hl == 'burn' else 2., id='hl', **{'activity link': hl}))
        if 'slag' in outs:
            ex.append(product('slag', 'slag', 0.25, type='byproduct', classification='waste', pv=1., uncertainty='uniform'))
        if 'scrap' in outs:
            ex.append(product('scrap', 'scrap', 0.125, type='byproduct', classification='recyclable', pv=1.))
        if c.flag('consequential exchange', dev=True):
            ex.append(need('electricity', 9., id='cq', properties=[{'name': 'consequential', 'amount': 1.}]))
        data.append(act('steel making', 'steel', l, pv=volume if l == 'GLO' else 20., inputs=ex, amount=c.choose('steel amount', (1., 2.), **D), id='steel' + l))
    # heat and power
    chp = some('heat and power', ('economic', 'combined', 'combined with by-product', 'single'))
    fixed = exchange('gas', 'from environment', 'gas', 4., 'normal')
    el = product('el', 'electricity', 2., pv=40., classification='allocatable product', price=3., variable='el')
    heat = product('heat', 'heat', 1., pv=c.choose('heat volume', (30., 0.), **D), classification='allocatable product', price=1., variable='heat')
    if chp == 'economic':
        heat['type'] = 'byproduct'
        ex = [el, heat, fixed]
    elif chp == 'single':
        ex = [el, fixed]
    else:
        ex = [el, heat, dict(fixed, formula='el * 2 + heat', amount=5.)]
        if chp != 'combined':
            ex.append(product('ash', 'ash', 0.5, pv=1., type='byproduct', classification='allocatable product', price=.5))
            ex.append(exchange('em', 'to environment', 'CO2', 1.))
        ex[2].pop('uncertainty')
    data.append(dataset('chp', 'heat and power', 'GLO', exchanges=ex))
    if chp == 'combined with by-product':
        data.append(market('ash', 'GLO'))
    # treatment of slag, which may sell electricity
    burn = some('slag treatment', (None, 'plain', 'with electricity'))
    if burn:
        ex = [product('rp', 'slag', -1., pv=8., classification='waste'), exchange('em', 'to environment', 'CO2', 2.)]
        if burn == 'with electricity':
            ex.append(product('byel', 'electricity', 0.5, pv=0., type='byproduct', classification='allocatable product', price=3.))
        if c.flag('treatment uses hard link', **D):
            ex.append(need('electricity', 0.25, id='hl', **{'activity link': 'chp'}))
        data.append(dataset('burn', 'treatment of slag', c.choose('treatment in', ('GLO', 'CH'), **D), exchanges=ex))
    # recycling
    if c.flag('recycling'):
        data.append(dataset('recycle', 'recycling of scrap', 'GLO', exchanges=[
            product('rp', 'scrap', -1., pv=6., classification='recyclable'), need('electricity', 1.),
            product('st', 'steel', 0.5, pv=0., type='byproduct', classification='allocatable product', price=2.)]))
    # markets
    data += [market('electricity', l, inputs=[need('electricity', 0.125, id='loss', **{'activity link': 'm/electricity/' + l})] if c.flag('losses', **D) else [])
             for l in c.choose('electricity markets', (('GLO',), ('CH', 'GLO')), **D)]
    if c.flag('electricity group', **D):
        data.append(group('electricity', 'GLO'))
    data.append(market('heat', 'GLO'))
    data += [market('steel', l, inputs=[need('electricity', 0.5)]) for l in c.choose('steel markets', (('GLO',), ('CH',)), **D)]
    waste = some('waste markets', ((), ('slag', 'scrap'), ('slag',)) + ((('scrap',),) if FULL else ()))
    if 'slag' in waste:
        data.append(market('slag', 'GLO', amount=-1., cls='waste'))
    if 'scrap' in waste:
        data.append(market('scrap', 'GLO', amount=c.choose('scrap market sign', (-1., 1.), **D), cls='recyclable'))
    if 'scrap' in outs and c.flag('scrap is also made', dev=True):
        data.append(act('scrap making', 'scrap', 'GLO', pv=3.))
        if 'scrap' not in waste:
            data.append(market('scrap', 'GLO'))
    odd = c.choose('odd link', (None, 'zero amount', 'on a product', 'on a by-product'), dev=True)
    if odd == 'zero amount':
        data[0]['exchanges'].append(need('electricity', 0., id='zero', **{'activity link': 'nowhere'}))
    elif odd == 'on a product':
        data[0]['exchanges'][0]['activity link'] = 'nowhere'
    elif odd == 'on a by-product' and chp != 'single':
        for e in [d for d in data if d['id'] == 'chp'][0]['exchanges']:
            if e['type'] == 'byproduct':
                e['activity link'] = 'm/%s/GLO' % e['name']
    child = c.choose('child', (None, 'market', 'activity', 'child of another'), dev=True)
    if child:
        # derived from a parent: links to the parent are links to itself
        for d in data:
            if child != 'activity' and d['type'] == 'market activity' or child == 'activity' and d['id'].startswith('steel'):
                d['parent'] = d['id'] + '-parent' if child != 'child of another' else 'm/heat/GLO'
                d['exchanges'].append(need(link.rp_of(d)['name'], 0.0625, id='own', **{'activity link': d['parent']}))
    odd = c.choose('oddity', (None, 'same id', 'market input', 'no volume', 'unknown link', 'no market', 'two markets', 'two scrap markets'), dev=True)
    if odd == 'same id':
        data[-1]['id'] = data[0]['id']
    elif odd == 'market input':
        data[-1]['exchanges'].append(need(link.rp_of(data[-1])['name'], 1.))
    elif odd == 'no volume':
        del data[0]['exchanges'][0]['production volume']
    elif odd == 'unknown link':
        data[0]['exchanges'].append(need('heat', 1., **{'activity link': 'nowhere'}))
    elif odd == 'no market':
        data[0]['exchanges'].append(need('nothing'))
    elif odd == 'two markets':
        data.append(market('heat', 'CH'))
        data.append(market('heat', 'RER'))
    elif odd == 'two scrap markets':
        data += [market('scrap', l, amount=-1., cls='recyclable') for l in ('CH', 'RER')]
    if c.flag('reversed', dev=True):
        data = data[::-1]
    return data


def scenario_for(wide, small=False):
    return lambda c: judge(c, database(c, wide, small), small)


def run(rep, tier):
    global FULL
    FULL = big = tier == 'thorough'
    rep.add('databases', explore('databases', scenario_for(False), bound=2 if big else 1),
            'steel, heat and power, waste treatment and recycling databases: all main choices, <=%d deviations' % (2 if big else 1))
    rep.add('second configuration', explore('second configuration', scenario_for(False, True), bound=2),
            'cutoff_config_ecoinvent_row on the databases of some of the main choices, <=2 deviations')
