"""Q02 -- a complete consequential run: splitting, constrained markets, substitutable by-products, linking."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, exchange, product, UNCERTAINTIES
from ..ref import conseq, link
from ..ref.check import Raised, call, ds_list_equal
from ..ref.common import close
from ..world import act, group, market, need
from .l09 import integrity

from ocelot.configuration import consequential_config
from ocelot.transformations.consequential import (
    delete_activity_links_to_constrained_markets, ensure_byproducts_have_alternative_production,
    handle_constrained_markets, split_combined_production)


def constrained(amount=-.5, market_='m/a/GLO', target='maker', unc='none', **kw):
    return dict(exchange('cond', 'byproduct', 'a', amount, unc, **kw), **{
        'byproduct classification': 'allocatable product', 'conditional exchange': True, 'activity link': target,
        'production volume': {'amount': 7.}})


# -- the parts ---------------------------------------------------------------------------------------------------------

def swap(c):
    """Constrained markets: exactly the three exchanges change, each is the exact opposite of before."""
    kinds = [u for u in UNCERTAINTIES]
    n = c.choose('constrained markets', (1, 2, 0))
    data = []
    for i in range(n):
        p = 'a%d' % i
        t = dataset('t%d' % i, 'maker %d' % i, exchanges=[
            product('rp', 'y%d' % i, c.choose('product amount%d' % i, (2., -1.), dev=i > 0), pv=9., classification='allocatable product', price=1.,
                    uncertainty=c.choose('product uncertainty%d' % i, kinds, dev=i > 0)),
            exchange('in', 'from technosphere', p, c.choose('input amount%d' % i, (.75, 1.), dev=i > 0), c.choose('input uncertainty%d' % i, kinds, dev=i > 0)),
            exchange('el', 'from technosphere', 'power', 3., 'normal', formula='x * 4')])
        for j, e in enumerate(t['exchanges'][:2]):
            if c.flag('formula%d%d' % (i, j), dev=True):
                e['formula'] = 'x + %d' % j
        odd = c.choose('oddity%d' % i, (None, 'no input', 'two inputs', 'output', 'two products', 'no product'), dev=True)
        if odd == 'no input':
            t['exchanges'].pop(1)
        elif odd == 'two inputs':
            t['exchanges'].append(need(p, 1., id='again'))
        elif odd == 'output':
            t['exchanges'][1]['type'] = 'byproduct'
            t['exchanges'][1]['byproduct classification'] = 'waste'
        elif odd == 'two products':
            t['exchanges'].append(product('rp2', 'q', 1., pv=1., classification='waste'))
        elif odd == 'no product':
            t['exchanges'].pop(0)
        cond = dict(constrained(c.choose('amount%d' % i, (-.5, -1.), dev=True), target=c.choose('target%d' % i, ('t%d' % i, 'u'), dev=True),
                                unc=c.choose('uncertainty%d' % i, kinds, dev=i > 0)), name=p)
        if c.flag('formula%dc' % i, dev=True):
            cond['formula'] = 'z'
        m = market(p, 'GLO', inputs=[need('transport', .1), cond])
        if c.flag('in one market', dev=True) and data:
            data[1]['exchanges'].append(m['exchanges'][2])
            data.append(t)
        else:
            data += [t, m]
    data.append(act('user', 'z', 'CH', id='u', inputs=[need('a0', 4., 'lognormal'), need('y0', 1.)]))
    if c.flag('reversed', dev=True):
        data = data[::-1]
    before = deepcopy(data)
    c.state(repr(before))
    try:
        expected = conseq.constrained(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: handle_constrained_markets(data))
    if isinstance(expected, link.Rejected):
        c.outcome(str(expected))
        c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
        return
    problems = ds_list_equal(expected, got, lambda d: d['id'])
    c.expect(not problems, lambda: '\n'.join(problems[:6]))
    c.outcome([[(e['type'], e['amount']) for e in d['exchanges']] for d in got])


def links(c):
    """Hard links to constrained activities go, conditional exchanges keep theirs."""
    data = [dataset('t', 'maker', exchanges=[product('rp', 'y', 1., pv=1., classification='allocatable product'), need('a', 1.)]),
            dataset('o', 'other', exchanges=[product('rp', 'b', 1., pv=1., classification='allocatable product')])]
    conditional = c.flag('constrained market')
    data.append(market('a', 'GLO', inputs=[constrained(target='t')] if conditional else []))
    want = {}
    for i in range(c.choose('users', (1, 2, 0))):
        ex = []
        for j, t in enumerate(c.choose('links%d' % i, (('t',), ('o',), ('t', 'o'), (), ('t', 't')))):
            ex.append(need('y' if t == 't' else 'b', c.choose('amount', (1., -2., 0.), dev=True), id='l%d' % j, **{'activity link': t}))
            want[i, j] = None if t == 't' and conditional else t
        ex.append(need('power', 1.))
        data.append(act('user', 'z', 'CH', id='u%d' % i, inputs=ex))
    before = deepcopy(data)
    c.state(repr(before))
    got = call(c, lambda: delete_activity_links_to_constrained_markets(data))
    c.expect(isinstance(got, list) and len(got) == len(before), lambda: repr(got))
    lost = 0
    for b, g in zip(before, got):
        for e, x in zip(b['exchanges'], g['exchanges']):
            if e.get('activity link') and not e.get('conditional exchange'):
                w = want[int(b['id'][1:]), int(e['id'][1:])]
                if w is None:
                    e = {k: v for k, v in e.items() if k != 'activity link'}
                elif 'activity link' not in x:
                    lost += 1
                    x = dict(x, **{'activity link': e['activity link']})
            c.expect(e == x, lambda: '%r became %r' % (e, x))
        c.expect({k: v for k, v in b.items() if k != 'exchanges'} == {k: v for k, v in g.items() if k != 'exchanges'}
                 and len(b['exchanges']) == len(g['exchanges']), 'dataset changed')
    c.outcome((sorted(want.items()), lost))
    if lost:
        c.known_finding('unconstrained-links-deleted', 'hard links to activities which are not constrained are deleted as well')


def byproducts(c):
    """Every by-product needs another producer, wherever it is."""
    data = []
    for i in range(3):
        ex = [product('rp', c.choose('product%d' % i, ('a', 'b', 'c')), 1., pv=1., classification='allocatable product')]
        for j, b in enumerate(c.choose('byproducts%d' % i, ((), ('a',), ('b',), ('d',), ('a', 'c')))):
            ex.append(product('b%d' % j, b, c.choose('amount', (1., 0., -1.), dev=True), pv=1., type='byproduct',
                              classification=c.choose('class', ('allocatable product', 'waste', 'recyclable'), dev=True)))
        if c.flag('input%d' % i, dev=True):
            ex.append(need('d'))
        data.append(dataset('d%d' % i, 'act %d' % i, type=c.choose('type%d' % i, ('transforming activity', 'market activity'), dev=True), exchanges=ex))
    before = deepcopy(data)
    c.state(repr(before))
    made = {link.rp_of(d)['name'] for d in before}
    missing = sorted({e['name'] for d in before for e in d['exchanges'] if e['type'] == 'byproduct'} - made)
    got = call(c, lambda: ensure_byproducts_have_alternative_production(data))
    if missing:
        c.expect(isinstance(got, Raised) and got.name == 'MissingAlternativeProducer', lambda: 'no other producer of %s, got %r' % (missing, got))
        c.expect(all(m in str(got.exc) for m in missing), lambda: 'error names %r, missing %r' % (str(got.exc), missing))
    else:
        c.expect(got == before, lambda: 'rejected or changed: %r' % (got,))
    c.outcome(missing)


# -- complete runs -----------------------------------------------------------------------------------------------------

def complete(wide):
    def scenario(c):
        """Steel, heat and power with several products, by-products with other producers, markets and groups."""
        D = dict(dev=not wide)
        steel = c.choose('steel in', (('GLO',), ('CH', 'GLO')))
        data = []
        for l in steel:
            for way in ('', 'modern ')[:c.choose('ways', (1, 2)) if l == 'GLO' else 1]:
                ex = [need('electricity', 3., 'lognormal'), exchange('em', 'to environment', 'CO2', 5., 'triangular')]
                b = c.choose('byproduct', (None, 'heat', 'slag', 'nothing'), dev=l != 'GLO' or bool(way))
                if b:
                    ex.append(product('by', b, .25, pv=0., type='byproduct', classification='waste' if b == 'slag' else 'allocatable product', price=1., uncertainty='uniform'))
                if c.flag('zero link', dev=True):
                    ex.append(need('electricity', 0., id='zero', **{'activity link': 'nowhere'}))
                data.append(act(way + 'steel making', 'steel', l, pv=50. if l == 'GLO' else 20., inputs=ex, amount=c.choose('steel amount', (1., 2., 0.), dev=True),
                                id=way + 'steel' + l, **{'technology level': way.strip() or 'current'}))
        chp = c.choose('heat and power', ('combined', 'single', 'zero'))
        el = product('el', 'electricity', 2., pv=40., classification='allocatable product', price=3., variable='el', uncertainty='normal')
        heat = product('heat', 'heat', 0. if chp == 'zero' else 1., pv=30., classification='allocatable product', price=1., variable='heat')
        ex = [el, heat, exchange('gas', 'from environment', 'gas', 5., formula='el * 2 + heat'), need('steel', 1., formula='heat * 3')] if chp != 'single' else [el, need('steel', 1.)]
        data.append(dataset('chp', 'heat and power', 'GLO', exchanges=ex))
        if c.choose('boiler', (True, False)):
            data.append(act('boiler', 'heat', 'CH', pv=10., inputs=[need('electricity', .5)], **{'technology level': c.choose('boiler level', ('current', 'new', 'outdated'))}))
        if c.flag('treatment'):
            data.append(act('treatment', 'slag', 'GLO', amount=-1., cls='waste', inputs=[need('heat', .5)]))
            data.append(market('slag', 'GLO', amount=-1., cls='waste'))
        data += [market('electricity', l, inputs=[need('electricity', .125, id='loss', **{'activity link': 'm/electricity/' + l})] if c.flag('losses', dev=True) else [])
                 for l in c.choose('electricity markets', (('GLO',), ('CH', 'GLO')))]
        if c.flag('electricity group'):
            data.append(group('electricity', 'GLO'))
        data += [market('heat', 'GLO'), market('steel', 'GLO', inputs=[need('electricity', .5)])]
        con = c.choose('constrained', (None, 'own product', 'elsewhere'), dev=True)
        if con:
            data += [act('maker', 'y', 'GLO' if con == 'own product' else 'US', id='maker', inputs=[need('a', 1.)]), act('maker of a', 'a', 'CH'), market('y', 'GLO'),
                     market('a', 'GLO' if con == 'own product' else 'CH', inputs=[constrained()])]
        odd = c.choose('oddity', (None, 'same id', 'market input', 'no volume', 'no market'), dev=True)
        if odd == 'same id':
            data[-1]['id'] = data[0]['id']
        elif odd == 'market input':
            data[-1]['exchanges'].append(need(link.rp_of(data[-1])['name'], 1.))
        elif odd == 'no volume':
            del data[0]['exchanges'][0]['production volume']
        elif odd == 'no market':
            data[0]['exchanges'].append(need('nothing'))
        if c.flag('reversed', dev=True):
            data = data[::-1]
        before = deepcopy(data)
        c.state(repr(before))
        expected = None
        try:
            expected = conseq.complete(deepcopy(before))
        except link.Rejected as e:
            expected = e
        except KeyError as e:
            c.expect(con == 'own product' and e.args == ('production volume',), lambda: 'model: %r' % e)
        got = call(c, lambda: consequential_config(data))
        if expected is None:
            c.outcome('constrained')
            if isinstance(got, Raised) and got.name == 'KeyError':
                c.known_finding('constrained-market-without-volume',
                                'the switched product of a constrained activity inside its market has no production volume: KeyError')
            return
        if isinstance(expected, link.Rejected):
            c.outcome(str(expected))
            c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
            return
        c.expect(isinstance(got, list), lambda: 'rejected a valid database: %r' % got)
        problems = link.compare(expected, got)
        c.expect(not problems, lambda: '\n'.join(problems[:8]))
        codes = {d['code']: d for d in got}
        for d in got:
            what = (d['name'], d['reference product'], d['location'])
            rp = link.rp_of(d)
            c.expect(close(abs(rp['amount']), 1), lambda: '%r: makes %r' % (what, rp['amount']))
            for e in d['exchanges']:
                if e['type'] == 'from technosphere':
                    c.expect(e.get('code') in codes and codes[e['code']]['reference product'] == e['name'], lambda: '%r: input %s has no supplier' % (what, e['name']))
        c.outcome(sorted((d['name'], d['reference product'], d['location'], sorted((e['type'], e['name'], round(e['amount'], 9)) for e in d['exchanges'])) for d in got))
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    n = 2 if big else 1
    rep.add('constrained markets', explore('constrained markets', swap, bound=n), '<=2 constrained markets, all uncertainties, <=%d deviations' % n)
    rep.add('links', explore('links', links, bound=n), 'two users with up to two hard links')
    rep.add('by-products', explore('by-products', byproducts, bound=n), 'three activities with up to two by-products each')
    rep.add('complete', explore('complete', complete(False), bound=n), 'steel, heat and power, treatment databases: all main choices, <=%d deviations' % n)
