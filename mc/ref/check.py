"""Helpers that call the implementation and compare with the model."""
from copy import deepcopy

from ..engine import Violation
from .common import aliased, diff, same, same_multiset


class Raised:
    def __init__(self, exc):
        self.exc = exc
        self.name = type(exc).__name__

    def __repr__(self):
        return 'raised %s: %s' % (self.name, str(self.exc)[:200])


def call(c, fn, *args, **kw):
    """Run the implementation; exceptions become values."""
    c.step()
    try:
        return fn(*args, **kw)
    except Exception as e:
        return Raised(e)


def expect_raised(c, got, names, what):
    c.expect(isinstance(got, Raised) and (names == 'any' or got.name in names),
             lambda: '%s: expected rejection by %s, got %r' % (what, names, got))


def ds_equal(expected, got, ordered=True):
    """[] if the dataset equals the expected one (exchange order ignored unless ordered)."""
    if not isinstance(got, dict):
        return ['not a dataset: %r' % (got,)]
    a = {k: v for k, v in expected.items() if k != 'exchanges'}
    b = {k: v for k, v in got.items() if k != 'exchanges'}
    out = diff(a, b)
    ea, eb = expected['exchanges'], got['exchanges']
    if ordered:
        if len(ea) != len(eb):
            out.append('%d exchanges expected, got %d' % (len(ea), len(eb)))
        out += diff(ea, eb, 'exchanges')
        return out
    # match by id where present, for readable differences
    ids = [e.get('id') for e in ea]
    if len(set(ids)) == len(ids) and sorted(map(str, ids)) == sorted(str(e.get('id')) for e in eb):
        m = {e.get('id'): e for e in eb}
        for e in ea:
            out += diff(e, m[e.get('id')], 'exchange %s' % e.get('id'))
        return out
    return out + same_multiset(ea, eb)


def ds_list_equal(expected, got, key):
    """Compare dataset lists matched through ``key`` (order ignored)."""
    if not isinstance(got, list):
        return ['not a list of datasets: %r' % (got,)]
    ge = {}
    for d in got:
        if not isinstance(d, dict):
            return ['element is not a dataset: %r' % (d,)]
        ge.setdefault(key(d), []).append(d)
    out = []
    for e in expected:
        k = key(e)
        cands = ge.get(k, [])
        if not cands:
            out.append('missing dataset %r' % (k,))
            continue
        for i, g in enumerate(cands):
            if not ds_equal(e, g, ordered=False):
                cands.pop(i)
                break
        else:
            out += ['dataset %r: %s' % (k, x) for x in ds_equal(e, cands[0], ordered=False)]
            cands.pop(0)
    for k, rest in ge.items():
        if rest:
            out.append('unexpected dataset %r' % (k,))
    return out


def rp_name(ds):
    names = sorted(e['name'] for e in ds['exchanges'] if e['type'] == 'reference product')
    return (ds['name'], ds['location'], tuple(names))
