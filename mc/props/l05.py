"""L05 -- market groups: supplied by the biggest markets and groups inside them, no place twice."""
from ..engine import Skip, explore
from ..ref import link
from ..ref.common import close
from ..world import act, group, market, need
from .l03 import BIG, inputs_of, run_link


def scenario_for(groups, markets, wide):
    def scenario(c):
        gl = c.subset('group', groups)
        if not gl:
            raise Skip
        ml = markets(c)
        data = [group('a', l, amount=c.choose('amount', (1., -1., 2.), dev=True)) for l in gl]
        if c.flag('other name', dev=True):
            data[-1]['name'] = 'another market group'
        h = c.choose('hard link to group', [None] + [(i, v) for i in range(len(gl)) for v in (2., 1000.)], dev=True)
        if h:
            link.rp_of(data[h[0]])['production volume']['subtracted activity link volume'] = h[1]
        odd = c.choose('row group', (False, True), dev=True)
        if odd:
            data[-1]['location'] = 'RoW'
        pv = iter((3., 5., 7., 11., 13., 17., 19.))
        for l in ml:
            data.append(market('a', l))
            v = 100. if l == 'GLO' else next(pv)
            if c.flag('no volume in ' + l, dev=True):
                v = 0.
            data.append(act('making', 'a', l, pv=v))
        if c.flag('group of another product', dev=True):
            data += [group('b', gl[0]), market('b', 'GLO'), act('making', 'b', 'GLO')]
        order = c.choose('order', ('as is', 'reversed', 'rotated'), dev=True)
        data = data[::-1] if order == 'reversed' else data[1:] + data[:1] if order == 'rotated' else data
        expected, got = run_link(c, data)
        if not got:
            return
        for d in got:
            if d['type'] != 'market group':
                continue
            rp = link.rp_of(d)
            ex = [x for x in expected.data if link.key(x) == link.key(d)][0]
            c.expect(close(rp['production volume']['amount'], link.rp_of(ex)['production volume']['amount']),
                     lambda: '%s: production volume %r, expected %r' % (
                         link.key(d), rp['production volume'], link.rp_of(ex)['production volume']))
            own = [e['amount'] for e in d['exchanges'] if e['type'] == 'from technosphere']
            c.expect(not own or close(sum(own), rp['amount']), lambda: 'inputs add up to %r' % sum(own))
        c.outcome(inputs_of(got, ('market group',)))
    return scenario


def subsets(places):
    def pick(c):
        return c.subset('market in', places)
    return pick


def layouts(*options):
    return lambda c: c.choose('markets in', options)


def run(rep, tier):
    big = tier == 'thorough'
    europe = ('GLO', 'RER', 'ENTSO-E', 'WEU', 'Europe without Switzerland') + (('UCTE', 'CH') if big else ())
    m = ('GLO', 'CH', 'DE', 'NO', 'CA') + (('US', 'FR') if big else ())
    rep.add('europe', explore('europe', scenario_for(europe, subsets(m), big), bound=1),
            'all sets of groups over %r and of markets over %r, <=1 deviation' % (europe, m))
    rep.add('continents', explore('continents', scenario_for(
        ('GLO', 'RER', 'UN-OCEANIA') + (('RAS', 'NAFTA') if big else ()),
        layouts(BIG + ('GLO',), BIG, ('RAS', 'GLO'), BIG[:3] + ('GLO',), ('RER', 'CA', 'US', 'RAS', 'GLO'), ('RER', 'GLO'), ('GLO',), ('AU', 'CN', 'DE', 'GLO')), big),
        bound=2 if big else 1), 'RoW small and large')
