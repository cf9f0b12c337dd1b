"""L01 -- rest-of-world: which dataset becomes RoW, and with which production volume."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import exchange, product
from ..ref import link
from ..ref.check import Raised, call, ds_equal
from ..ref.common import close
from ..world import act, group, market
from .l03 import run_link

from ocelot.transformations.locations.markets import delete_global_with_zero_pv_when_regional_present
from ocelot.transformations.locations.rest_of_world import relabel_global_to_row


def check(c, data):
    before = deepcopy(data)
    c.state(repr(before))
    try:
        expected = link.relabel(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: relabel_global_to_row(data))
    if isinstance(expected, link.Rejected):
        c.outcome(str(expected))
        c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
        return
    c.expect(isinstance(got, list), lambda: 'rejected: %r' % got)
    c.expect(sorted(d['id'] for d in got) == sorted(d['id'] for d in expected), 'datasets appeared or disappeared')
    have = {d['id']: d for d in got}
    for d in expected:
        p = ds_equal(d, have[d['id']], ordered=False)
        c.expect(not p, lambda: '%s: %s' % (d['id'], p))
    # laws that do not need the model
    first = {d['id']: d for d in before}
    for d in got:
        was = first[d['id']]
        if d['location'] == 'RoW' and was['location'] == 'GLO':
            others = [x for x in before if x['id'] != d['id'] and x['name'] == d['name']]
            c.expect(bool(others), 'RoW without a regional dataset')
    again = call(c, lambda: relabel_global_to_row(deepcopy(got)))
    c.expect(again == got, 'relabelling twice changes something')
    c.outcome(sorted((d['id'], d['location'], [e.get('production volume', {}).get('amount') for e in d['exchanges']]) for d in got))


def scenario_for(places, kinds, wide):
    def scenario(c):
        data = []
        make = {'activity': lambda l, **k: act('making', 'a', l, **k),
                'market': lambda l, **k: market('a', l, name='making', **k),
                'group': lambda l, **k: group('a', l, name='making', **k)}[c.choose('kind', kinds)]
        where = c.subset('in', places)
        if not where:
            raise Skip
        for l in where:
            pv = c.choose('volume in ' + l, (100., 7., 0.) if l == 'GLO' else (5., 0., 60.))
            d = make(l, pv=pv, id='1' + l)
            p = link.rp_of(d)['production volume']
            o = c.choose('hard linked part in ' + l, (None, 3., 'all'), dev=True)
            if o:
                p['original amount'] = pv
                p['subtracted activity link volume'] = 3. if o == 3. else pv
                p['amount'] = max(0., pv - p['subtracted activity link volume'])
            by = c.choose('by-product in ' + l, (None, 'useful', 'zero', 'waste', 'useful, listed first'), dev=True)
            if by:
                d['exchanges'].insert(0 if 'first' in by else len(d['exchanges']), product('by', 'b', 0. if by == 'zero' else 2., pv=1., type='byproduct',
                                              classification='waste' if by == 'waste' else 'allocatable product'))
            odd = c.choose('odd in ' + l, (None, 'other name', 'other product', 'no volume', 'zero amount'), dev=True)
            if odd == 'other name':
                d['name'] = 'doing'
            elif odd == 'other product':
                link.rp_of(d)['name'] = 'z'
            elif odd == 'no volume' and l != 'GLO':
                del link.rp_of(d)['production volume']
            elif odd == 'zero amount':
                link.rp_of(d)['amount'] = 0.
            data.append(d)
        second = c.choose('second group', (None, 'GLO', 'CH+GLO', 'two GLO', 'RoW'), dev=True)
        if second:
            data += [act('making', 'z', l, pv=9. + i, id='2%d' % i) for i, l in enumerate(
                {'GLO': ['GLO'], 'CH+GLO': ['CH', 'GLO'], 'two GLO': ['GLO', 'GLO'], 'RoW': ['RoW', 'CH']}[second])]
        if c.flag('treatments', dev=True):
            for d in data:
                link.rp_of(d)['amount'] *= -1
        if c.flag('reversed', dev=True):
            data = data[::-1]
        check(c, data)
    return scenario


def chain(c):
    """The relabelled volumes are those which the markets see."""
    data, n = [market('a', 'GLO')], 0
    for l in c.subset('in', ('GLO', 'CH', 'CA', 'RER')):
        pv = c.choose('volume', (100., 7., 0.) if l == 'GLO' else (5., 0., 60.))
        d = act('making', 'a', l, pv=pv)
        if c.flag('hard linked', dev=True):
            p = link.rp_of(d)['production volume']
            p.update({'original amount': pv, 'subtracted activity link volume': 3., 'amount': max(pv - 3., 0)})
        data.append(d)
    expected, got = run_link(c, data)
    if got:
        c.outcome(sorted((d['id'], d['location'], link.rp_of(d)['production volume']['amount']) for d in got))


def without_volume(c):
    """Rest-of-world datasets which make nothing go when others make the same, unless they are needed."""
    kind = c.choose('kind', ('transforming activity', 'market activity'))
    data = []
    for i in range(c.choose('datasets', (1, 2, 3))):
        typ = c.choose('type', ('transforming activity', 'market activity', 'market group')) if i else kind
        d = {'transforming activity': act, 'market activity': market, 'market group': group}[typ]
        d = d(*(('making',) if typ[0] == 't' else ()), c.choose('product', ('a', 'b')) if i else 'a', c.choose('place', ('RoW', 'CH')) if i else 'RoW', id=str(i), pv=c.choose('volume', (0., 5.)))
        p = link.rp_of(d)['production volume']
        if c.flag('used up by hard links', dev=True):
            p['original amount'], p['amount'] = p['amount'], 0.
        d['reference product'] = link.rp_of(d)['name']
        d['code'] = link.rp_of(d)['code'] = 'code ' + d['id']
        data.append(d)
    for i, d in enumerate(data):
        t = c.choose('linked to', (None,) + tuple(range(len(data))), dev=True)
        if t is not None:
            d['exchanges'].append(exchange('h', 'from technosphere', data[t]['reference product'], 1., **{'activity link': str(t), 'code': data[t]['code']}))
    before = deepcopy(data)
    c.state((kind, repr(before)))
    needed = {e['code'] for d in before for e in d['exchanges'] if e.get('activity link') and e['code'] != d['code']}
    want = [d for d in before if not (
        d['type'] == kind and d['location'] == 'RoW' and not link.original_pv(d) and d['code'] not in needed
        and any(x is not d and x['type'] == kind and x['reference product'] == d['reference product'] for x in before))]
    got = call(c, lambda: delete_global_with_zero_pv_when_regional_present(data, kind=kind))
    c.expect(isinstance(got, list) and [d['id'] for d in got] == [d['id'] for d in want], lambda: '%r instead of %r' % (got, [d['id'] for d in want]))
    for a, b in zip(want, got):
        p = ds_equal(a, b)
        c.expect(not p, lambda: '%s: %s' % (a['id'], p))
    c.outcome((kind, len(before), [d['id'] for d in want]))


def run(rep, tier):
    big = tier == 'thorough'
    p = ('GLO', 'CH', 'DE') + (('CA',) if big else ())
    rep.add('relabel', explore('relabel', scenario_for(p, ('activity', 'market', 'group'), big), bound=3 if big else 2),
            'all sets of places over %r with all volumes, <=%d deviations' % (p, 3 if big else 2))
    rep.add('without volume', explore('without volume', without_volume, bound=3 if big else 2), '1-3 datasets of three kinds, two products and two places, with and without volume, <=%d deviations' % (3 if big else 2))
    rep.add('chain', explore('chain', chain, bound=2), 'volumes as used by the market')
