"""P02 -- recalculation gives every formula its value, in dependency order."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref import params, unc
from ..ref.check import Raised, call, ds_equal
from ..ref.common import close

from ocelot.transformations import recalculate
from ocelot.transformations.parameterization import recalculate_all_parameterized_datasets

CARRIERS = ('parameter', 'exchange', 'volume', 'property')


def body(kind, refs, own):
    """A formula that uses all of refs."""
    if not refs:
        return {'sum': '2+3*4', 'ratio': '1/(2-2)', 'power': '2**-1', 'choice': '((5) if (1>2) else (6))', 'function': 'sqrt(16)'}[kind]
    if kind == 'sum':
        return ' + '.join('%d*%s' % (i + 2, r) for i, r in enumerate(refs))
    if kind == 'ratio':
        return '7/' + '/'.join('(%s-%d)' % (r, 2) for r in refs)
    if kind == 'power':
        return '+'.join('%s**2' % r for r in refs)
    if kind == 'choice':
        return '((%s) if (%s > 2.5) else (1))' % (refs[-1], refs[0])
    return 'abs(%s)' % '-'.join(refs)


def place(ds, carrier, o, i):
    if carrier == 'parameter':
        ds['parameters'].append(dict(o, id='p%d' % i, name='p'))
    elif carrier == 'exchange':
        ds['exchanges'].append(dict(exchange('x%d' % i, 'from technosphere', 'flow', o['amount']), **o))
    elif carrier == 'volume':
        ds['exchanges'].append(product('v%d' % i, 'by', 1., pv=1., type='byproduct'))
        ds['exchanges'][-1]['production volume'] = o
    else:
        ds['exchanges'][0].setdefault('properties', []).append(dict(o, id='q%d' % i, name='q'))


def build(c, n, tag, kinds, carriers=True):
    ds = dataset('d' + tag, 'activity ' + tag, exchanges=[product('rp', 'thing', 1., pv=5.)])
    ds['reference product'] = 'thing'
    names = ['a', 'b', 'zeta', 'alpha'][:n]
    order = c.permutation('order', list(range(n)))
    for i in order:
        o = {'amount': 2. + i, 'variable': names[i]}
        defined = c.choose('%s is' % names[i], ('a number', 'a formula'))
        if defined == 'a formula':
            refs = c.subset(names[i] + ' uses', names)
            o['amount'] = c.choose('old amount', (o['amount'], 0.), dev=True)
            o['formula'] = body(c.choose('shape', kinds, dev=True), refs, names[i])
        else:
            o['amount'] = c.choose('amount', (o['amount'], 0., -1.5, 3, 1e-12), dev=True)
        if c.flag('uncertain', dev=True):
            o['uncertainty'] = {'type': 'lognormal', 'mean': 1., 'mu': 0., 'variance': 0.04, 'variance with pedigree uncertainty': 0.09}
        place(ds, c.choose('carrier', CARRIERS, dev=True) if carriers else 'parameter', o, i)
    return ds, names


def graph(n, kinds):
    def scenario(c):
        ds, names = build(c, n, '', kinds)
        # an unnamed formula, evaluated last
        end = c.choose('unnamed', ('uses all', 'none', 'unknown name', 'own constant'), dev=True)
        if end != 'none':
            f = {'uses all': '+'.join(names) + '*10', 'unknown name': 'a + nowhere', 'own constant': '3*pi'}[end]
            e = exchange('u', 'to environment', 'CO2', 99., formula=f)
            if c.flag('triangular', dev=True):
                e['uncertainty'] = {'type': 'triangular', 'minimum': 1e6 if c.flag('far') else 0., 'mode': 99., 'maximum': 1e7}
            ds['exchanges'].insert(c.choose('position', (0, 1), dev=True), e)
        before = deepcopy(ds)
        c.state(repr(before))
        bad = end == 'unknown name'
        try:
            want = params.recalculated(before) if not bad else None
        except params.Undefined:
            want = None
        if want is not None and any(isinstance(o['amount'], complex) or abs(o['amount']) > 1e200 for o in unc.objects(want)):
            raise Skip
        got = call(c, recalculate, ds)
        if want is None:
            c.expect(isinstance(got, Raised), lambda: 'circular or undefined references accepted: %r' % (got,))
            c.outcome('rejected')
            return
        c.expect(isinstance(got, dict), lambda: 'rejected: %r' % (got,))
        p = ds_equal(want, got)
        c.expect(not p, lambda: repr(p))
        c.outcome(repr(sorted((o.get('variable', '-'), round(float(o['amount']), 9)) for o in unc.objects(got) if 'variable' in o or 'formula' in o)))
        again = call(c, recalculate, deepcopy(got))
        c.expect(isinstance(again, dict) and not ds_equal(got, again), lambda: 'not stable: %r' % (again,))
    return scenario


def several(c):
    """All datasets of a database: those that fail are left alone, the others calculated."""
    data = []
    for i in range(2):
        ds, _ = build(c, 2, str(i), ('sum',), False)
        data.append(ds)
    before = deepcopy(data)
    c.state(repr(before))
    got = call(c, recalculate_all_parameterized_datasets, data)
    c.expect(isinstance(got, list) and len(got) == 2, lambda: repr(got))
    out = []
    for a, b in zip(before, got):
        try:
            want = params.recalculated(a)
        except params.Undefined:
            want = a
        p = ds_equal(want, b)
        out.append(want is a)
        c.expect(not p, lambda: repr(p))
    c.outcome((tuple(out), repr([[p['amount'] for p in d['parameters']] for d in got])))


def run(rep, tier):
    big = tier == 'thorough'
    kinds = ('sum', 'ratio', 'power', 'choice', 'function')
    rep.add('two quantities', explore('two quantities', graph(2, kinds), bound=3 if big else 2), 'all reference graphs of 2 named quantities, <=%d deviations' % (3 if big else 2))
    rep.add('three quantities', explore('three quantities', graph(3, kinds), bound=1 if big else 0), 'all reference graphs of 3 named quantities and all orders, <=%d deviations' % (1 if big else 0))
    rep.add('two datasets', explore('two datasets', several, bound=1 if big else 0), 'all pairs of graphs of 2 quantities, <=%d deviations' % (1 if big else 0))
    rep.assume('formulas evaluate to real numbers below 1e200')
