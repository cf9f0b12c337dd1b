"""L08 -- dataset codes: same identity, same code; otherwise different codes; duplicates rejected."""
from copy import deepcopy

from ..engine import explore
from ..gen import product
from ..ref.check import Raised, call
from ..world import act, market

from ocelot.transformations.identifying import add_unique_codes

FIELDS = ('name', 'reference product', 'unit', 'location', 'start date', 'end date')
VALUES = {
    'name': ('Making It', 'making it', 'doing', None),
    'reference product': ('Thing', 'THING', 'stuff', None),
    'unit': ('kg', 'Kg', 'unit', None),
    'location': ('CH', 'ch', 'RoW', None),
    'start date': ('2000-01-01', '2000-01-01', '1999-01-01', None),
    'end date': ('2010-12-31', '2010-12-31', '2009-12-31', None),
}


def ident(d):
    return tuple((d.get(f) or '').lower() for f in FIELDS)


def build(c, label, values):
    d = {'id': label, 'type': 'transforming activity', 'exchanges': [{'type': 'reference product', 'name': 'Thing', 'amount': 1.}]}
    for f in FIELDS:
        v = c.choose('%s %s' % (label, f), values(f))
        if v is not None:
            d[f] = v
    return d


SEEN = {}


def check(c, data):
    before = deepcopy(data)
    c.state(repr(before))
    got = call(c, lambda: add_unique_codes(data))
    idents = [ident(d) for d in before]
    c.outcome(tuple(sorted(idents.count(i) for i in idents)))
    if len(set(idents)) != len(idents):
        c.expect(isinstance(got, Raised) and got.name == 'IdenticalDatasets', lambda: 'identical datasets accepted: %r' % (got,))
        return
    c.expect(isinstance(got, list) and len(got) == len(before), lambda: 'rejected or lost: %r' % (got,))
    for d, b in zip(got, before):
        code = d.get('code')
        c.expect(isinstance(code, str) and code, lambda: 'no code: %r' % d)
        c.expect({k: v for k, v in d.items() if k != 'code'} == {k: v for k, v in b.items() if k != 'code'}, 'dataset changed')
        # the code depends on the identity alone, whatever else is in the database
        c.expect(SEEN.setdefault(ident(b), code) == code, lambda: 'two codes for %r' % (ident(b),))
    c.expect(len({d['code'] for d in got}) == len(got), 'two datasets with one code')
    # running again gives the same codes
    again = call(c, lambda: add_unique_codes(deepcopy(got)))
    c.expect(again == got, 'codes changed on a second run')


def pair(wide):
    def scenario(c):
        a = build(c, 'first', lambda f: VALUES[f][:1] if not wide or f in ('name', 'unit') else VALUES[f][::3])
        b = build(c, 'second', lambda f: VALUES[f] if 'date' not in f else VALUES[f][1:])
        other = c.choose('other field', (None, 'type', 'exchanges', 'id', 'old code'), dev=True)
        if other == 'type':
            b['type'] = 'market activity'
        elif other == 'exchanges':
            b['exchanges'] = []
        elif other == 'id':
            b['id'] = a['id']
        elif other == 'old code':
            b['code'] = 'xyz'
        check(c, [a, b] if not c.flag('reversed', dev=True) else [b, a])
    return scenario


def triple(c):
    """Three datasets; the clash may be between any two of them."""
    small = lambda f: VALUES[f][:3:2] if f in ('name', 'location') else VALUES[f][:2] if f == 'reference product' else VALUES[f][:1]
    check(c, [build(c, x, small) for x in ('first', 'second', 'third')])


CLOSE = ('making it', 'making  it', 'making it ', ' making it', 'making-it', 'making, it', 'makingit', 'making it2', 'making i', 'm\xe4king it', 'm\xf6king it',
         'making \xeft', 'making it\xdf', 'making itss', 'making it\u2082', 'making it\U0001f63a', 'making it\u4e2d', 'making it\u6587',
         'MAKING IT', 'M\xc4KING IT', 'ma\u0308king it', 'making it.', 'making it (1)', 'making it (2)', 'making it 1,2', 'making it 12', 'ing it mak', '')


def close_values(c):
    """Two values of one field which look alike but are not (or only in case)."""
    f = c.choose('field', ('name', 'reference product', 'unit', 'location'))
    data = []
    for label in ('first', 'second'):
        d = {'id': label, 'type': 'transforming activity', 'exchanges': []}
        for g in FIELDS:
            d[g] = VALUES[g][0]
        d[f] = c.choose(label, CLOSE)
        data.append(d)
    check(c, data)


def run(rep, tier):
    rep.add('close values', explore('close values', close_values), 'two datasets, one field: all pairs of %d values that look alike' % len(CLOSE))
    big = tier == 'thorough'
    rep.add('pairs', explore('pairs', pair(big), bound=2 if big else 1),
            'two datasets: each field the same, the same in another case, different or absent')
    rep.add('triples', explore('triples', triple), 'three datasets')
    rep.assume('field values whose concatenation is ambiguous are outside the alphabet (documented hash of concatenated fields)')
