"""Reference model of uncertainty repair (documented rules)."""
import math
from copy import deepcopy

PEDIGREE = {
    "reliability": (0, 0.0006, 0.002, 0.008, 0.04),
    "completeness": (0, 0.0001, 0.0006, 0.002, 0.008),
    "temporal correlation": (0, 0.0002, 0.002, 0.008, 0.04),
    "geographical correlation": (0, 0.000025, 0.0001, 0.0006, 0.002),
    "further technological correlation": (0, 0.0006, 0.008, 0.04, 0.12),
    "sample size": (0, 9.8e-05, 0.0006, 0.0023, 0.0083),
}


def pedigree_variance(pm):
    return sum(PEDIGREE[k][v - 1] for k, v in pm.items())


class Invalid(Exception):
    pass


def repaired(obj):
    """Copy of obj as it must look after repair; raises Invalid if it must be rejected."""
    o = deepcopy(obj)
    u = o.get('uncertainty')
    if not u:
        return o
    kind = u.get('type')
    a = o['amount']
    if kind == 'lognormal':
        total = u.get('variance with pedigree uncertainty')
        if a == 0 or total == 0:
            del o['uncertainty']
            return o
        u['mean'] = abs(a)
        u['negative'] = a < 0
        u['mu'] = math.log(abs(a))
        ped = pedigree_variance(o.get('pedigree matrix', {}))
        v = total - ped
        if 1 <= v <= math.e:
            v = math.log(v)
            total = v + ped
        elif v > math.e:
            v = 0.25
            total = v + ped
        u['variance'] = v
        u['variance with pedigree uncertainty'] = total
    elif kind == 'normal':
        if u['variance with pedigree uncertainty'] == 0:
            del o['uncertainty']
            return o
        u['mean'] = a
    elif kind in ('triangular', 'uniform'):
        lo, hi = u['minimum'], u['maximum']
        if kind == 'triangular':
            u['mode'] = a
        if lo == hi == a:
            del o['uncertainty']
            return o
        lo, hi = min(lo, hi), max(lo, hi)
        u['minimum'], u['maximum'] = lo, hi
        if not lo <= a <= hi:
            if kind == 'uniform':
                raise Invalid('uniform amount out of range')
            del o['uncertainty']
            return o
        if kind == 'uniform':
            mid = (lo + hi) / 2
            if abs(a - mid) > 1e-8 + 1e-5 * abs(mid):
                u['type'] = 'triangular'
                u['mode'] = a
    return o


def objects(ds):
    """All (container) objects that can carry a value: exchange, PV, property, parameter."""
    for e in ds['exchanges']:
        yield e
        if 'production volume' in e:
            yield e['production volume']
        for p in e.get('properties', []):
            yield p
    for p in ds.get('parameters', []):
        yield p


def repair_inplace(ds):
    for o in objects(ds):
        if o.get('uncertainty'):
            n = repaired(o)
            o.clear()
            o.update(n)
