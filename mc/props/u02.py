"""U02 -- repair makes every distribution consistent with its amount, or removes it."""
import math
from copy import deepcopy

from ..engine import Skip, Violation, explore
from ..gen import dataset, exchange, product
from ..ref import unc
from ..ref.check import Raised, call, ds_equal
from ..ref.common import close, same

from ocelot.io.ecospold2_meta import PEDIGREE_LABELS
from ocelot.transformations.parameterization.uncertainty import repair_all_uncertainty_distributions
from ocelot.transformations.uncertainty import adjust_pedigree_matrix_time, get_uncertainty_class
from ocelot.transformations.uncertainty.pedigree import get_pedigree_variance

VAR = (0., 0.04, 1., 2., math.e, 2.75, 9.)
PEDIGREES = ({}, {'reliability': 5, 'completeness': 2}, {'reliability': 1, 'completeness': 1, 'temporal correlation': 3,
             'geographical correlation': 4, 'further technological correlation': 5, 'sample size': 2})


def distribution(c, kind, a, dev):
    if kind == 'lognormal':
        return {'type': kind, 'mean': c.choose('mean', (abs(a), -1.5, 77.)), 'mu': c.choose('mu', (0., 3.)),
                'variance': c.choose('variance', (0.04, 3.)), 'variance with pedigree uncertainty': c.choose('total variance', VAR)}
    if kind == 'normal':
        return {'type': kind, 'mean': c.choose('mean', (a, -1.5)), 'variance': c.choose('variance', (0.04, 0.)),
                'variance with pedigree uncertainty': c.choose('total variance', (0.09, 0., 2.))}
    if kind == 'undefined':
        return {'type': kind, 'minimum': c.choose('minimum', (a, 1., -9.)), 'maximum': c.choose('maximum', (a, 9., -20.)), 'standard deviation 95': 0.}
    d = {'type': kind, 'minimum': c.choose('minimum', (a - 1, a, a + 1, a - 1 + 1e-9, a - 3)),
         'maximum': c.choose('maximum', (a + 1, a, a - 1, a + 4))}
    if kind == 'triangular':
        d['mode'] = c.choose('mode', (a, a + 0.5, 99.))
    return d


def valid(c, o):
    u, a = o.get('uncertainty'), o['amount']
    if not u:
        return
    k = u['type']
    if k == 'lognormal':
        c.expect(a and close(u['mean'], abs(a)) and close(u['mu'], math.log(abs(a))) and u['negative'] == (a < 0),
                 lambda: 'not a lognormal around %r: %r' % (a, u))
        c.expect(u['variance with pedigree uncertainty'] >= 0, 'negative variance')
    elif k == 'normal':
        c.expect(close(u['mean'], a) and u['variance with pedigree uncertainty'] > 0, lambda: 'not a normal around %r: %r' % (a, u))
    elif k == 'triangular':
        c.expect(u['minimum'] <= u['mode'] <= u['maximum'] and u['mode'] == a and u['minimum'] < u['maximum'], lambda: 'not a triangle around %r: %r' % (a, u))
    elif k == 'uniform':
        c.expect(u['minimum'] < u['maximum'] and abs((u['minimum'] + u['maximum']) / 2 - a) < 1e-4 * (1 + abs(a)), lambda: 'not uniform around %r: %r' % (a, u))


def repair(c):
    kind = c.choose('kind', ('lognormal', 'normal', 'triangular', 'uniform', 'undefined', 'beta', 'empty'))
    a = c.choose('amount', (2., -2., 0., 1e-9))
    where = c.choose('in', ('exchange', 'volume', 'property', 'parameter'), dev=True)
    o = {'amount': a, 'name': 'x', 'id': 'o'}
    if kind == 'beta':
        o['uncertainty'] = {'type': 'beta'}
    elif kind == 'empty':
        o['uncertainty'] = {}
    else:
        o['uncertainty'] = distribution(c, kind, a, False)
    if kind in ('lognormal', 'normal'):
        p = c.choose('pedigree', PEDIGREES)
        if p:
            o['pedigree matrix'] = dict(p)
    ex = product('rp', 'thing', 1., pv=3., uncertainty='none')
    ds = dataset('d', 'name', exchanges=[ex, exchange('f', 'to environment', 'CO2', 1., 'triangular')], parameters=[{'name': 'p', 'amount': 1.}])
    if where == 'exchange':
        ds['exchanges'].append(dict(o, type='from technosphere', unit='kg', tag='intermediateExchange'))
        pick = lambda d: d['exchanges'][2]
    elif where == 'volume':
        ex['production volume'] = o
        pick = lambda d: d['exchanges'][0]['production volume']
    elif where == 'property':
        ex['properties'] = [{'name': 'dry mass', 'amount': 1.}, o]
        pick = lambda d: d['exchanges'][0]['properties'][1]
    else:
        ds['parameters'].append(o)
        pick = lambda d: d['parameters'][1]
    data = [ds]
    before = deepcopy(data)
    c.state(repr(before))
    try:
        want = deepcopy(before)
        if kind != 'beta':
            for d in want:
                unc.repair_inplace(d)
    except unc.Invalid:
        want = None
    got = call(c, repair_all_uncertainty_distributions, data)
    if want is None or kind == 'beta':
        c.outcome('rejected')
        c.expect(isinstance(got, Raised), lambda: 'accepted %r' % (o,))
        return
    c.expect(isinstance(got, list) and len(got) == 1, lambda: 'rejected: %r' % (got,))
    p = ds_equal(want[0], got[0])
    c.expect(not p, lambda: '%r: %r' % (o, p))
    valid(c, pick(got[0]))
    c.outcome(repr(pick(got[0]).get('uncertainty')))
    if 'uncertainty' not in pick(got[0]) or kind not in ('lognormal',):
        again = call(c, repair_all_uncertainty_distributions, deepcopy(got))
        c.expect(isinstance(again, list) and not ds_equal(got[0], again[0]), 'repairing twice changes something')


def everywhere(c):
    """Distributions in any combination of places, each one off its amount."""
    def put(o, where):
        k = c.choose(where, (None, 'normal', 'lognormal'), dev=where in ('second volume', 'second parameter', 'property of other'))
        if k:
            o['uncertainty'] = {'type': k, 'mean': o['amount'] + 1, 'mu': 5., 'variance': 0.04, 'variance with pedigree uncertainty': 0.09}
            if k == 'normal':
                del o['uncertainty']['mu']
    rp, by = product('rp', 'thing', 2., pv=3., uncertainty='none'), product('by', 'other', 4., pv=5., type='byproduct', uncertainty='none')
    em = exchange('e', 'to environment', 'CO2', 6., 'none')
    rp['properties'] = [{'name': 'p1', 'amount': 7.}, {'name': 'p2', 'amount': 8.}]
    em['properties'] = [{'name': 'p3', 'amount': 9.}]
    ds = dataset('d', 'name', exchanges=[rp, by, em], parameters=[{'name': 'a', 'amount': 10.}, {'name': 'b', 'amount': 11.}])
    for e in (rp, by, em):
        e.pop('uncertainty', None)
    for o, where in ((rp, 'product'), (rp['production volume'], 'volume'), (rp['properties'][0], 'first property'), (rp['properties'][1], 'second property'),
                     (em, 'emission'), (by['production volume'], 'second volume'), (em['properties'][0], 'property of other'),
                     (ds['parameters'][0], 'parameter'), (ds['parameters'][1], 'second parameter')):
        put(o, where)
    before = deepcopy(ds)
    c.state(repr(before))
    want = deepcopy(before)
    unc.repair_inplace(want)
    got = call(c, repair_all_uncertainty_distributions, [ds])
    c.expect(isinstance(got, list) and len(got) == 1, lambda: 'rejected: %r' % (got,))
    p = ds_equal(want, got[0])
    c.expect(not p, lambda: repr(p))
    c.outcome(sum(1 for o in unc.objects(got[0]) if o.get('uncertainty')))


def extracted(c):
    """The pedigree matrix as it is extracted from ecospold2 files: inside the uncertainty."""
    total = c.choose('total variance', (0.04, 0.3))
    score = c.choose('scores', (1, 2, 5))
    which = c.choose('criterion', tuple(sorted(PEDIGREE_LABELS.values())))
    pm = {k: 1 for k in PEDIGREE_LABELS.values()}
    pm[which] = score
    ds = dataset('d', 'name', exchanges=[exchange('e', 'from technosphere', 'x', 2., uncertainty='none')])
    ds['exchanges'][0]['uncertainty'] = {'type': 'lognormal', 'mean': 2., 'mu': math.log(2), 'variance': 0.01,
                                         'variance with pedigree uncertainty': total, 'pedigree matrix': dict(pm)}
    c.state((total, score, which))
    got = call(c, repair_all_uncertainty_distributions, [ds])
    c.expect(isinstance(got, list), lambda: repr(got))
    u = got[0]['exchanges'][0]['uncertainty']
    tech = {k.replace('technology', 'technological'): v for k, v in pm.items()}
    want = total - unc.pedigree_variance(tech)
    c.outcome((score, which, u['variance']))
    c.expect(u['pedigree matrix'] == pm and u['variance with pedigree uncertainty'] == total, 'matrix or total changed: %r' % u)
    if not close(u['variance'], want):
        raise Violation('base variance %r, but total %r minus pedigree is %r' % (u['variance'], total, want),
                        sig='extracted-pedigree-ignored' if close(u['variance'], total) else None)


def adjust(c):
    """Ageing of a dataset: temporal score and total variance."""
    end = c.choose('end date', ('2000-12-31', '2010-01-01'))
    years = range(int(end[:4]), int(end[:4]) + 22)
    current = c.choose('score', (1, 2, 3, 4, 5))
    kind = c.choose('kind', ('lognormal', 'normal', 'triangular', 'none'))
    other = c.choose('other', (1, 4))
    as_text = c.flag('year as date')
    last = current
    for y in years:
        ds = dataset('d', 'name', **{'end date': end})
        e = exchange('e', 'from technosphere', 'x', 2., kind)
        e['pedigree matrix'] = {'temporal correlation': current, 'reliability': other}
        before = deepcopy(e)
        got = call(c, adjust_pedigree_matrix_time, ds, e, '%d-06-01' % y if as_text else y)
        c.expect(isinstance(got, dict), lambda: repr(got))
        n = y - int(end[:4])
        s = got['pedigree matrix']['temporal correlation']
        if n == 0:
            want = current
        else:
            want = {1: 2 if n <= 3 else 3 if n <= 7 else 4 if n <= 12 else 5, 2: 3 if n < 5 else 4 if n == 5 else 5,
                    3: 4 if n <= 5 else 5, 4: 5, 5: 5}[current]
        c.expect(s == want and s >= last, lambda: 'score %r after %d years: %r' % (current, n, s))
        last = s
        c.expect(got['pedigree matrix']['reliability'] == other, 'another score changed')
        if kind == 'lognormal':
            u = got['uncertainty']
            t = u['variance'] + unc.pedigree_variance(got['pedigree matrix'])
            c.expect(close(u['variance with pedigree uncertainty'], t), lambda: 'total variance %r' % u)
        before['pedigree matrix'] = got['pedigree matrix']
        if kind == 'lognormal':
            before['uncertainty']['variance with pedigree uncertainty'] = got['uncertainty']['variance with pedigree uncertainty']
        c.expect(same(before, got), lambda: 'something else changed: %r' % got)
        c.state((current, y, kind, other))
    c.outcome((current, last, kind))
    bare = exchange('e', 'from technosphere', 'x', 2., kind)
    if kind != 'lognormal':
        got = call(c, adjust_pedigree_matrix_time, ds, deepcopy(bare), 2020)
        c.expect(same(got, bare), 'exchange without matrix changed')


IDS = {'undefined': 0, 'none': 1, 'lognormal': 2, 'normal': 3, 'uniform': 4, 'triangular': 5}


def sampled(c):
    """Parameters a distribution is sampled with (as documented by stats_arrays)."""
    kind = c.choose('kind', ('none', 'undefined', 'lognormal', 'normal', 'triangular', 'uniform', 'beta'))
    a = c.choose('amount', (2., -2., 1e-3, -1e6))
    total = c.choose('total variance', (0.04, 2.25, 1.)) if kind in ('lognormal', 'normal') else 0
    base = c.choose('base variance', (0.04, 0.01)) if kind in ('lognormal', 'normal') else 0
    left, right = (c.choose('left', (0.5, 3.)), c.choose('right', (0.5, 7.))) if kind in ('triangular', 'uniform', 'undefined') else (0, 0)
    o = {'amount': a, 'name': 'x'}
    want = {'uncertainty type': IDS.get(kind), 'amount': a, 'loc': a}
    if kind == 'beta':
        o['uncertainty'] = {'type': kind, 'minimum': 0., 'maximum': 1.}
    elif kind == 'lognormal':
        o['uncertainty'] = {'type': kind, 'mean': abs(a), 'mu': math.log(abs(a)), 'negative': a < 0, 'variance': base, 'variance with pedigree uncertainty': total}
        want.update(loc=math.log(abs(a)), scale=math.sqrt(total), negative=a < 0)
    elif kind == 'normal':
        o['uncertainty'] = {'type': kind, 'mean': a, 'variance': base, 'variance with pedigree uncertainty': total}
        want.update(scale=math.sqrt(total))
    elif kind == 'triangular':
        o['uncertainty'] = {'type': kind, 'minimum': a - left, 'mode': a, 'maximum': a + right}
        want.update(minimum=a - left, maximum=a + right)
    elif kind != 'none':
        o['uncertainty'] = {'type': kind, 'minimum': a - left, 'maximum': a + right}
        if kind == 'undefined':
            o['uncertainty']['standard deviation 95'] = 1.
        else:
            want.update(minimum=a - left, maximum=a + right)
    before = deepcopy(o)
    c.state(repr(o))
    got = call(c, lambda: get_uncertainty_class(o).to_stats_arrays(o))
    if kind == 'beta':
        c.expect(isinstance(got, Raised), 'beta accepted: %r' % (got,))
        return
    c.expect(isinstance(got, dict), lambda: repr(got))
    if kind == 'uniform':
        got.pop('loc', None), want.pop('loc')
    c.expect(same(want, got), lambda: '%r is sampled as %r, expected %r' % (o, got, want))
    c.expect(same(o, before), 'sampling changed the exchange')
    if kind not in ('undefined',):
        for args, n in (((), 1), ((4,), 4)):
            r = call(c, lambda: list(get_uncertainty_class(o).sample(o, *args)))
            c.expect(isinstance(r, list) and len(r) == n, lambda: '%d samples of %r: %r' % (n, o, r))
            if kind in ('triangular', 'uniform'):
                c.expect(all(a - left <= x <= a + right for x in r), lambda: 'sampled %r of %r' % (r, o))
            elif kind == 'none':
                c.expect(all(x == a for x in r), lambda: 'sampled %r of %r' % (r, o))
            elif kind == 'lognormal':
                c.expect(all(x * a > 0 for x in r), lambda: 'sampled %r of %r' % (r, o))
    c.outcome(repr(want))


def table(c):
    """Additional variance of every combination of scores."""
    pm = {}
    for k in unc.PEDIGREE:
        v = c.choose(k, (None, 1, 2, 3, 4, 5))
        if v:
            pm[k] = v
    c.state(repr(pm))
    got = call(c, get_pedigree_variance, dict(pm))
    want = unc.pedigree_variance(pm)
    c.expect(not isinstance(got, Raised) and close(got, want), lambda: '%r adds %r, expected %r' % (pm, got, want))
    c.outcome(round(want, 9))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('everywhere', explore('everywhere', everywhere, bound=3 if big else 1), 'nine places with a normal, a lognormal or no distribution')
    rep.add('repair', explore('repair', repair, bound=1), 'all distributions with consistent and inconsistent parameters in all four carriers')
    rep.add('extracted pedigree', explore('extracted pedigree', extracted), 'pedigree matrix where extraction puts it')
    rep.add('ageing', explore('ageing', adjust), '22 years after the end date')
    rep.add('sampling', explore('sampling', sampled), 'all distributions')
    rep.add('pedigree table', explore('pedigree table', table), 'all combinations of scores')
