"""Q01 -- consequential markets buy from the best technology inside them, in proportion to production volumes."""
from copy import deepcopy

from ..engine import Skip, explore
from ..ref import conseq, link
from ..ref.check import Raised, call
from ..ref.common import close
from ..world import act, group, market, need
from .l03 import inputs_of

from ocelot.transformations.consequential import link_markets_by_technology_level

LEVELS = conseq.LEVELS + ('undefined',)


def judge(c, data):
    before = deepcopy(data)
    c.state(repr(before))
    try:
        expected = conseq.linked(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: link_markets_by_technology_level(data))
    if isinstance(expected, link.Rejected):
        c.outcome(str(expected))
        c.expect(isinstance(got, Raised), lambda: 'accepted although: %s' % expected)
        return
    c.expect(isinstance(got, list), lambda: 'rejected a valid database: %r' % got)
    direct(c, got)
    problems = link.compare(expected, got)
    c.expect(not problems, lambda: '\n'.join(problems[:8]))
    c.outcome((inputs_of(got, ('market activity', 'market group')), inputs_of(got, ('transforming activity',))))


def direct(c, got):
    """What can be said about the result alone."""
    codes = {d['code']: d for d in got}
    for d in got:
        c.expect('suppliers' not in d, 'supplier list left behind')
        rp = link.rp_of(d)
        own = [e for e in d['exchanges'] if e['type'] == 'from technosphere' and e['name'] == rp['name'] and not e.get('activity link')]
        if d['type'] == 'transforming activity':
            continue
        c.expect(not own or close(sum(e['amount'] for e in own), rp['amount']), lambda: '%s sells %r, buys %r' % (d['name'], rp['amount'], own))
        if d['type'] == 'market activity':
            levels = {codes[e['code']]['technology level'] for e in own}
            c.expect(len(levels) < 2, lambda: '%s in %s buys from %s' % (d['name'], d['location'], sorted(levels)))


def levels(c):
    """Every combination of technology levels and volumes of three producers."""
    data = []
    for i, (name, loc) in enumerate((('t1', 'CH'), ('t2', 'CH'), ('t1', 'DE'))[:3]):
        d = act(name, 'a', loc, pv=c.choose('pv%d' % i, (3. + 2 * i, 0.)), **{'technology level': c.choose('level%d' % i, LEVELS)})
        if c.flag('hard linked %d' % i, dev=True):
            link.rp_of(d)['production volume'].update({'original amount': 9., 'subtracted activity link volume': 1.})
        data.append(d)
    data += [market('a', l, amount=c.choose('amount', (1., -1., 2.), dev=True)) for l in c.choose('markets', (('GLO',), ('CH', 'GLO'), ('CH',)))]
    data.append(act('user', 'z', 'CH', inputs=[need('a', 4., 'lognormal')]))
    if c.flag('reversed', dev=True):
        data = data[::-1]
    judge(c, data)


def regions(wide):
    places = ('GLO', 'CH', 'DE', 'RER') + (('CA',) if wide else ())
    def scenario(c):
        """All sets of producers, markets and groups in nested regions."""
        ms = c.subset('markets', places)
        if not ms:
            raise Skip
        data = [market('a', l, inputs=[need('b', .5)] if c.flag('market uses b', dev=True) else []) for l in ms]
        pv = iter((3., 5., 7., 11., 13., 17., 19., 23.))
        for l in c.subset('old producers', places[:3] + places[4:]):
            data.append(act('old way', 'a', l, pv=90. if l == 'GLO' else next(pv), **{'technology level': 'old'}))
        for l in c.choose('new producers', ((), ('GLO',), ('CH', 'GLO'), ('DE',), ('RER',))):
            data.append(act('new way', 'a', l, pv=next(pv), **{'technology level': 'new'}))
        for l in c.choose('groups', ((), ('GLO',), ('RER',), ('RER', 'GLO'), ('CH', 'RER')) if wide else ((), ('GLO',), ('RER', 'GLO'))):
            data.append(group('a', l))
        for l in c.choose('users', (('GLO',), ('RER',), ('CH', 'GLO'))):
            data.append(act('user', 'z', l, pv=80. if l == 'GLO' else 1., inputs=[need('a', 4., 'lognormal')]))
        data += [act('maker of b', 'b', 'CH'), market('b', 'GLO')]
        # links to one activity
        t = c.choose('hard link to', (None, data[0]['id'], 'maker of b/b/CH', 'nowhere'), dev=True)
        if t:
            data.append(act('linker', 'y', 'CH', inputs=[need(c.choose('of', ('a', 'b')), 2., **{'activity link': t})]))
        odd = c.choose('oddity', (None, 'two products', 'no product', 'unsold', 'twin', 'same group'), dev=True)
        if odd == 'two products':
            data[-1]['exchanges'].append(dict(link.rp_of(data[-1]), id='second', name='c'))
        elif odd == 'no product':
            data[-1]['exchanges'][0]['type'] = 'byproduct'
        elif odd == 'unsold':
            data.append(act('user', 'y', 'DE', inputs=[need('nothing')]))
        elif odd == 'twin':
            data.append(dict(deepcopy(data[0]), id='twin'))
        elif odd == 'same group':
            data += [group('a', 'GLO', id='g1', name='one'), group('a', 'GLO', id='g2', name='other')]
        if c.flag('reversed', dev=True):
            data = data[::-1]
        judge(c, data)
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('levels', explore('levels', levels, bound=2 if big else 1),
            'three producers in all technology levels, with and without volume, 3 market layouts, <=%d deviations' % (2 if big else 1))
    rep.add('regions', explore('regions', regions(big), bound=1),
            'all sets of markets and of producers over nested regions, 5 sets of better producers, market groups, users')
    rep.assume('map data of constructive_geometries is trusted; places outside the alphabet are not enumerated')
