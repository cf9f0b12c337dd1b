"""L04 -- market inputs follow production volumes and add up; market volumes are what is left to sell."""
from copy import deepcopy

from ..engine import Skip, explore
from ..ref import link
from ..ref.check import Raised, call
from ..ref.common import close
from ..world import act, market, need
from .l03 import inputs_of, run_link
from .r02 import observed

from ocelot.transformations.locations.markets import allocate_suppliers, update_market_production_volumes


def volumes(c, label, values, deep):
    v = c.choose(label, values)
    d = {'amount': v}
    h = c.choose(label + ' hard links', (None, 0.5) if deep else (None,), dev=True)
    if h is not None:
        # as left behind by the accounting of hard links
        d['original amount'] = v + h
        d['subtracted activity link volume'] = h
    return d


def judge(c, expected, got):
    for d in got:
        if d['type'] != 'market activity':
            continue
        rp = link.rp_of(d)
        ex = [x for x in expected.data if link.key(x) == link.key(d)][0]
        c.expect(close(rp['production volume']['amount'], link.rp_of(ex)['production volume']['amount']),
                 lambda: '%s: production volume %r, expected %r' % (
                     link.key(d), rp['production volume'], link.rp_of(ex)['production volume']))
        own = [e for e in d['exchanges'] if e['type'] == 'from technosphere' and e['name'] == rp['name']]
        c.expect(all('uncertainty' not in e for e in own), 'a supply share is uncertain')
        if own:
            c.expect(close(sum(e['amount'] for e in own), rp['amount']),
                     lambda: '%s: inputs add up to %r of %r' % (link.key(d), sum(e['amount'] for e in own), rp['amount']))
        c.expect(all(e['amount'] for e in own), 'a supplier without share is listed')


def chain(values, deep):
    def scenario(c):
        amount = c.choose('market amount', (1., -1., 2.), dev=True)
        data = []
        layout = c.choose('layout', (('GLO',), ('CH', 'GLO'), ('CH', 'DE'), ('RER', 'GLO')))
        for l in layout:
            m = market('a', l, amount=amount, pv=c.choose('declared', (0., 50.), dev=True))
            h = c.choose('taken from market %s' % l, (None, 1., 100.), dev=True)
            if h:
                link.rp_of(m)['production volume']['subtracted activity link volume'] = h
            if c.flag('uncertain product', dev=True):
                link.rp_of(m)['uncertainty'] = {'type': 'uniform', 'minimum': 0.5, 'maximum': 2.}
            data.append(m)
        for name, loc in (('t1', 'CH'), ('t1', 'GLO'), ('t2', 'DE'), ('t3', 'CH')):
            if c.flag('%s in %s' % (name, loc)):
                d = act(name, 'a', loc)
                link.rp_of(d)['production volume'] = volumes(c, 'pv %s %s' % (name, loc), values, deep)
                data.append(d)
        expected, got = run_link(c, data)
        if got:
            judge(c, expected, got)
            c.outcome(inputs_of(got, ('market activity',)))
    return scenario


def direct(c):
    """The two stages in isolation, with any supplier list."""
    n = c.choose('suppliers', range(5))
    sup = []
    for i in range(n):
        pv = {'amount': c.choose('pv%d' % i, (0., 1., 3.5, 1e-9, 1e12))}
        if c.flag('hard%d' % i, dev=True):
            pv['original amount'] = pv['amount'] + 2
            pv['subtracted activity link volume'] = 2
        sup.append({'name': 'a', 'unit': 'kg', 'code': 'c%d' % i, 'location': 'CH', 'activity': 't', 'production volume': pv})
    m = market('a', 'GLO', amount=c.choose('amount', (1., -1., 0.25)), inputs=[need('transport', 0.5)])
    m['reference product'] = 'a'
    m['code'] = 'market'
    m['suppliers'] = sup
    rp = link.rp_of(m)
    h = c.choose('market hard link', (None, 2.), dev=True)
    if h:
        rp['production volume']['subtracted activity link volume'] = h
    keep = deepcopy(m['exchanges'])
    pvs = [s['production volume']['amount'] for s in sup]
    c.state(repr(m))
    logs = {}

    def update(d):
        r, got = observed(update_market_production_volumes, d)
        logs.update(got)
        return r
    r = call(c, update, [m])
    c.expect(not isinstance(r, Raised), lambda: repr(r))
    # what the report says about it: before and after hard links
    rows = [x['data'] for x in logs['ocelot']]
    taken = [s['production volume'].get('subtracted activity link volume', 0) for s in sup]
    numbers = (sum(pvs) + sum(taken), sum(taken), h or 0, max(sum(pvs) - (h or 0), 0))
    c.expect(len(rows) == 1 and tuple(rows[0][:3]) == (m['name'], 'a', 'GLO') and all(close(x, y) for x, y in zip(rows[0][3:], numbers)),
             lambda: 'reported %r, expected %r' % (rows, numbers))
    c.expect(close(rp['production volume']['amount'], max(sum(pvs) - (h or 0), 0)), lambda: 'market volume %r' % rp['production volume'])
    r = call(c, allocate_suppliers, m)
    c.expect(not isinstance(r, Raised), lambda: repr(r))
    new = [e for e in m['exchanges'] if e.get('code')]
    old = [e for e in m['exchanges'] if not e.get('code')]
    c.expect(len(old) == 2 and old[1] == keep[1], 'other exchanges changed')
    total = sum(pvs)
    if total:
        want = {s['code']: rp['amount'] * p / total for s, p in zip(sup, pvs) if p}
    elif n == 1:
        want = {'c0': rp['amount']}
    else:
        want = {}
    have = {e['code']: e['amount'] for e in new}
    c.expect(len(have) == len(new) and set(have) == set(want) and all(close(have[k], want[k]) for k in want),
             lambda: 'shares %r, expected %r' % (have, want))
    c.expect(all(e['name'] == 'a' and e['type'] == 'from technosphere' and e['unit'] == 'kg' for e in new), lambda: repr(new))
    c.outcome(have)


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('chain', explore('chain', chain((0., 1., 3.) if not big else (0., 1., 3.5, 7.), True), bound=2 if big else 1),
            '4 market layouts, <=4 activities, volumes incl. zero, <=%d deviations' % (2 if big else 1))
    rep.add('direct', explore('direct', direct, bound=2 if big else 1), '<=4 suppliers, 5 magnitudes of volume')
