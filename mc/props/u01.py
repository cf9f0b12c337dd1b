"""U01 -- scaling a flow scales its distribution; normalisation makes one unit of product."""
import math
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import UNCERTAINTIES, dataset, exchange, product
from ..ref.alloc import scaled
from ..ref.check import Raised, call, ds_equal
from ..ref.common import close, same

from ocelot.transformations import normalize_reference_production_amount
from ocelot.transformations.uncertainty import get_uncertainty_class, scale_exchange


def shape(e):
    """The random variable an exchange stands for, from the parameters a user samples with."""
    r = dict(get_uncertainty_class(e).to_stats_arrays(e))
    r.pop('uncertainty type')
    return r


def expected_shape(r, kind, f):
    """The same random variable times f."""
    out = dict(r, amount=r['amount'] * f)
    if kind == 'lognormal':
        out['loc'] = r['loc'] + math.log(abs(f))
        out['negative'] = bool(r['negative']) != (f < 0)
    else:
        if 'loc' in out:
            out['loc'] = r['loc'] * f
        if 'scale' in out:
            out['scale'] = r['scale'] * abs(f)
        if 'minimum' in out:
            out['minimum'], out['maximum'] = sorted((r['minimum'] * f, r['maximum'] * f))
    return out


def valid(c, e):
    u = e.get('uncertainty')
    if not u:
        return
    a = e['amount']
    if u['type'] == 'lognormal':
        c.expect(close(u['mean'], abs(a)) and close(u['mu'], math.log(abs(a))), lambda: 'lognormal %r with %r' % (a, u))
        c.expect(u['negative'] == (a < 0), lambda: 'lognormal sign: %r with %r' % (a, u))
    elif u['type'] == 'normal':
        c.expect(close(u['mean'], a), lambda: 'normal %r with %r' % (a, u))
    elif u['type'] in ('triangular', 'uniform'):
        c.expect(u['minimum'] <= a <= u['maximum'], lambda: '%r outside %r' % (a, u))
        if u['type'] == 'triangular':
            c.expect(close(u['mode'], a), lambda: 'mode of %r with %r' % (a, u))


def scale(factors, n):
    def scenario(c):
        kind = c.choose('uncertainty', UNCERTAINTIES + ('beta',))
        amount = c.choose('amount', (2., -2., 0., 0.125, -1e6))
        e = exchange('e', 'from technosphere', 'x', amount, kind if kind != 'beta' else 'none', formula='f', variable='v',
                     properties=[{'name': 'dry mass', 'amount': 1.}])
        if kind == 'beta':
            e['uncertainty'] = {'type': 'beta', 'minimum': 0., 'maximum': 1.}
        if c.flag('volume', dev=True):
            e['production volume'] = {'amount': 7., 'uncertainty': {'type': 'normal', 'mean': 7., 'variance': 1., 'variance with pedigree uncertainty': 1.}}
        if c.flag('no sign noted', dev=True) and kind == 'lognormal' and amount > 0:
            del e['uncertainty']['negative']
        first, total, hist = deepcopy(e), 1., []
        for i in range(n):
            f = c.choose('factor', factors)
            hist.append(f)
            before = deepcopy(e)
            want = scaled(before, f)
            got = call(c, scale_exchange, e, f)
            if kind == 'beta' and f != 1:
                c.expect(isinstance(got, Raised) and e == before, lambda: 'unsupported distribution: %r' % (got,))
                return
            c.expect(not isinstance(got, Raised), lambda: repr(got))
            if kind == 'lognormal' and 'uncertainty' in want and f != 1:
                want['uncertainty'].setdefault('negative', False)
                got.get('uncertainty', {}).setdefault('negative', False)
            c.expect(same(want, got), lambda: '%r times %r: expected %r, got %r' % (before, f, want, got))
            c.expect(got is e, 'returned another object')
            if amount and kind != 'beta' and 'uncertainty' in got and 'uncertainty' in before and f:
                if not (kind == 'lognormal' and 'negative' not in got['uncertainty']):
                    valid(c, got)
                a, b = expected_shape(shape(before), before['uncertainty']['type'], f), shape(got)
                c.expect(same(a, b), lambda: 'samples as %r, expected %r' % (b, a))
            total *= f
            e = got
        # the order and grouping of factors does not matter
        if total and kind != 'beta' and (amount or kind != 'lognormal'):
            once = call(c, scale_exchange, deepcopy(first), total)
            if 'uncertainty' in e and 'uncertainty' in once and kind == 'lognormal':
                once['uncertainty'].setdefault('negative', False)
                e['uncertainty'].setdefault('negative', False)
            c.expect(same(once, e), lambda: 'factors %r one by one give %r, at once %r' % (hist, e, once))
        elif not total and kind != 'beta':
            c.expect(e['amount'] == 0, 'zero factor left an amount')
        c.state((kind, amount, tuple(hist)))
        c.outcome((kind, repr(e)))
    return scenario


def normal(c):
    amount = c.choose('product', (2., -2., 0.5, 1., -1., 0., 1e-3, 1 + 1e-15, 7))
    ex = [product('rp', 'thing', amount, pv=10., classification='allocatable product', price=2.)]
    for i in range(c.choose('flows', (0, 1, 2))):
        t = c.choose('type%d' % i, ('from technosphere', 'to environment', 'byproduct', 'dropped product'), dev=i > 0)
        a = c.choose('amount%d' % i, (3., -3., 0.), dev=i > 0)
        ex.append(exchange('e%d' % i, t, 'flow %d' % i, a, c.choose('unc%d' % i, UNCERTAINTIES)))
        if not a and ex[-1].get('uncertainty', {}).get('type') == 'lognormal' and 0 < abs(amount - 1) < 1e-12:
            raise Skip  # undefined distribution, may be left alone or be removed
    odd = c.choose('odd', (None, 'second product', 'no product', 'product last'), dev=True)
    if odd == 'second product':
        ex.append(product('r2', 'other', 3.))
    elif odd == 'no product':
        ex = ex[1:]
    elif odd == 'product last':
        ex = ex[1:] + ex[:1]
    ds = dataset('d', 'name', exchanges=ex, parameters=[{'name': 'p', 'variable': 'p', 'amount': 3.}])
    before = deepcopy(ds)
    c.state(repr(before))
    got = call(c, normalize_reference_production_amount, ds)
    if odd in ('second product', 'no product') or not amount:
        c.expect(isinstance(got, Raised), lambda: 'normalised %r' % (got,))
        c.outcome(got.name)
        return
    c.expect(isinstance(got, list) and len(got) == 1, lambda: 'got %r' % (got,))
    want = deepcopy(before)
    f = 1 / abs(amount)
    want['exchanges'] = [scaled(e, f) for e in before['exchanges']]
    p = ds_equal(want, got[0])
    c.expect(not p, lambda: repr(p))
    rp = [e for e in got[0]['exchanges'] if e['type'] == 'reference product'][0]
    c.expect(close(abs(rp['amount']), 1) and (rp['amount'] > 0) == (amount > 0), 'product is %r' % rp['amount'])
    c.outcome(repr([(e['amount'], e.get('uncertainty')) for e in got[0]['exchanges']]))
    again = call(c, normalize_reference_production_amount, deepcopy(got[0]))
    c.expect(isinstance(again, list) and not ds_equal(got[0], again[0]), 'normalising twice changes something')


def run(rep, tier):
    big = tier == 'thorough'
    f = (2., -1., 0.5, 0., 1., -3., 1e-3) + ((1e6, 0.1, -0.7) if big else ())
    n = 4 if big else 3
    rep.add('scaling', explore('scaling', scale(f, n), bound=2 if big else 1), 'all sequences of %d factors of %r, all distributions and signs' % (n, f))
    rep.add('normalisation', explore('normalisation', normal, bound=3 if big else 2), '<=2 flows of all distributions')
    rep.assume('distributions are consistent with their amounts, as they are after repair (U02)')
