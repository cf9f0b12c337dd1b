"""L03 -- a market is supplied by exactly the activities that lie inside it."""
from copy import deepcopy

from ..engine import Skip, explore
from ..ref import link
from ..ref.check import Raised, call
from ..world import act, market, need

from ocelot.transformations.locations import link_markets_by_pv


def run_link(c, data):
    """Run the linking chain and compare everything with the model."""
    before = deepcopy(data)
    c.state(repr(before))
    try:
        expected = link.link(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: link_markets_by_pv(data))
    if isinstance(expected, link.Rejected):
        c.outcome(str(expected))
        c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
        return None, None
    c.expect(isinstance(got, list), lambda: 'rejected a valid database: %r' % got)
    problems = link.compare(expected, got)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    return expected, got


def inputs_of(got, types):
    codes = {d['code']: (d['name'], d['location']) for d in got}
    return sorted((d['name'], d['location'], sorted((codes[e['code']], round(e['amount'], 9))
                   for e in d['exchanges'] if e['type'] == 'from technosphere')) for d in got if d['type'] in types)


def scenario_for(markets, first, second, order):
    def scenario(c):
        ms = c.subset('market in', markets)
        if not ms:
            raise Skip
        data = [market('a', l) for l in ms]
        if c.flag('first market has another name', dev=True):
            data[0]['name'] = 'selling of a'
        pv = iter((3., 5., 7., 11., 13., 17., 19., 23., 29., 31.))
        for l in c.subset('tech 1 in', first):
            data.append(act('tech 1', 'a', l, pv=90. if l == 'GLO' else next(pv)))
        for l in c.choose('tech 2 in', second):
            data.append(act('tech 2', 'a', l, pv=100. if l == 'GLO' else next(pv)))
        if c.flag('other product', dev=True):
            data += [act('tech 1', 'b', 'CH'), market('b', 'GLO')]
        if c.flag('reversed', dev=True):
            data = data[::-1]
        expected, got = run_link(c, data)
        if got:
            c.outcome(inputs_of(got, ('market activity',)))
    return scenario


BIG = ('RAS', 'RER', 'RLA', 'RNA', 'RAF')


def run(rep, tier):
    big = tier == 'thorough'
    second = ((), ('GLO',), ('CH', 'GLO'), ('RER', 'RNA'))
    if big:
        second += (('CA', 'US'), ('NO', 'DE', 'GLO'), BIG + ('GLO',), BIG)
    m = ('GLO', 'CH', 'DE', 'RER', 'CA') + (('NAFTA', 'Europe without Switzerland') if big else ())
    f = ('GLO', 'CH', 'DE', 'RER', 'CA') + (('NO', 'RNA') if big else ())
    rep.add('regions', explore('regions', scenario_for(m, f, second, big), bound=2 if big else 1),
            'all sets of markets over %r, all sets of places of one technology over %r, %d settings of a second' % (m, f, len(second)))
    rep.add('continents', explore('continents', scenario_for(('GLO',) + BIG[:4 if not big else 5], ('GLO', 'CH') + BIG[:3], second[:2] + ((BIG + ('GLO',)),), big), bound=0),
            'continents and what they leave as RoW')
    rep.assume('map data of constructive_geometries is trusted; places outside the alphabet are not enumerated')
