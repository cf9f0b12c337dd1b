"""Comparison helpers shared by the reference models."""
import math


def close(a, b, rel=1e-9, abs_=1e-12):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    try:
        if math.isnan(a) or math.isnan(b):
            return False
    except TypeError:
        return False
    return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)


def isnum(x):
    if isinstance(x, bool):
        return False
    return isinstance(x, (int, float)) or hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()


def same(a, b):
    """Structural equality with a float tolerance."""
    if isnum(a) and isnum(b):
        return close(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, path=''):
    """Human readable first differences (expected a, got b)."""
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append('%s[%r] unexpected: %r' % (path, k, b[k]))
            elif k not in b:
                out.append('%s[%r] missing (expected %r)' % (path, k, a[k]))
            else:
                out += diff(a[k], b[k], '%s[%r]' % (path, k))
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, '%s[%d]' % (path, i))
    elif not same(a, b):
        out.append('%s expected %r, got %r' % (path, a, b))
    return out[:12]


def by(key, items):
    out = {}
    for x in items:
        out.setdefault(x[key], []).append(x)
    return out


def same_multiset(expected, got):
    """Order-insensitive structural equality; returns list of problems."""
    rest = list(got)
    missing = []
    for e in expected:
        for i, g in enumerate(rest):
            if same(e, g):
                rest.pop(i)
                break
        else:
            missing.append(e)
    if not missing and not rest:
        return []
    return ['expected but absent: %r' % m for m in missing[:3]] + ['unexpected: %r' % r for r in rest[:3]]


def aliased(*objs):
    """Mutable containers reachable from more than one of ``objs``."""
    seen = {}
    for n, o in enumerate(objs):
        ids = set()
        stack = [o]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if id(x) in ids:
                    continue
                ids.add(id(x))
                stack.extend(x.values())
            elif isinstance(x, list):
                if id(x) in ids:
                    continue
                ids.add(id(x))
                stack.extend(x)
        for i in ids:
            if i in seen and seen[i] != n:
                return True
            seen[i] = n
    return False
