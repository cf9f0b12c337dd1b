"""Reference model of scaling and of the cut-off allocation rules."""
import math
from copy import deepcopy


def scaled(exc, f):
    """A copy of ``exc`` as it must look after multiplication by ``f``."""
    e = deepcopy(exc)
    if f == 1:
        return e
    e['amount'] = exc['amount'] * f
    u = e.get('uncertainty')
    if not u:
        return e
    kind = u.get('type')
    if kind == 'undefined':
        u['minimum'] *= f
        u['maximum'] *= f
    elif kind == 'lognormal':
        if e['amount'] == 0:
            del e['uncertainty']
            return e
        u['mean'] = abs(e['amount'])
        u['mu'] = math.log(abs(e['amount']))
        if f < 0:
            u['negative'] = not u.get('negative')
    elif kind == 'normal':
        if f == 0:
            del e['uncertainty']
            return e
        u['mean'] *= f
        u['variance'] *= f * f
        u['variance with pedigree uncertainty'] *= f * f
    elif kind in ('triangular', 'uniform'):
        if f == 0:
            del e['uncertainty']
            return e
        lo, hi = sorted((u['minimum'] * f, u['maximum'] * f))
        u['minimum'], u['maximum'] = lo, hi
        if kind == 'triangular':
            u['mode'] *= f
    return e


def is_production(exc):
    return exc['type'] == 'reference product' or (
        exc['type'] == 'byproduct' and exc['byproduct classification'] == 'allocatable product')


def dropped(exc):
    e = deepcopy(exc)
    e['type'] = 'dropped product'
    e['amount'] = 0.
    for k in ('formula', 'production volume', 'uncertainty'):
        e.pop(k, None)
    return e


def chosen(ds, product, factor):
    """Dataset for ``product`` after giving it ``factor`` of all flows."""
    out = deepcopy(ds)
    rp = deepcopy(product)
    rp.pop('uncertainty', None)
    rp.pop('byproduct classification', None)
    rp['type'] = 'reference product'
    norm = 1 / abs(product['amount'])
    exchanges = [scaled(rp, norm)]
    for e in ds['exchanges']:
        if is_production(e):
            if e is not product:
                exchanges.append(dropped(e))
        else:
            exchanges.append(scaled(scaled(e, factor), norm))
    out['exchanges'] = exchanges
    return out


def prop(exc, name):
    for p in exc.get('properties', []):
        if p['name'] == name:
            return p['amount']
    return None


def economic_factors(ds):
    """[(factor, product)] by revenue, corrected by true value; None if undefined."""
    prods = [e for e in ds['exchanges'] if is_production(e)]
    revenue = [prop(e, 'price') * e['amount'] for e in prods]
    total = sum(revenue)
    if total == 0:
        return None
    tv = [prop(e, 'true value relation') for e in prods]
    share = [r / total for r in revenue]
    if any(t is not None for t in tv):
        tvsum = sum(t * e['amount'] for t, e in zip(tv, prods) if t is not None)
        if tvsum == 0:
            return None
        tvrev = sum(r for r, t in zip(revenue, tv) if t is not None)
        share = [
            (t * e['amount'] / tvsum * tvrev / total) if t is not None else s
            for t, e, s in zip(tv, prods, share)
        ]
    return list(zip(share, prods))


def economic(ds):
    """Expected datasets, or the string naming the documented rejection."""
    for e in ds['exchanges']:
        if not is_production(e):
            continue
        if prop(e, 'price') is None or prop(e, 'price') < 0 or e['amount'] < 0:
            return 'InvalidExchange'
    if any(e['amount'] == 0 for e in ds['exchanges'] if is_production(e)):
        return 'ZeroProduction'
    f = economic_factors(ds)
    if f is None:
        return 'InvalidExchange'
    return [chosen(ds, p, s) for s, p in f]


def waste(ds):
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product']
    if len(rps) != 1:
        return 'any'
    rp = rps[0]
    if rp.get('byproduct classification') != 'waste' or not rp['amount'] < 0:
        return 'InvalidExchange'
    out = [chosen(ds, rp, 1)]
    for e in ds['exchanges']:
        if is_production(e) and e is not rp:
            if e['amount'] == 0:
                return 'ZeroProduction'
            alone = deepcopy(ds)
            e2 = deepcopy(e)
            alone['exchanges'] = [e2]
            out.append(chosen(alone, e2, 1))
    return out


def recycling(ds):
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product']
    if len(rps) != 1:
        return 'any'
    if not rps[0]['amount'] < 0:
        return 'InvalidExchange'
    if not any(is_production(e) and e['type'] == 'byproduct' for e in ds['exchanges']):
        return 'InvalidExchange'
    d = deepcopy(ds)
    for i, e in enumerate(d['exchanges']):
        if e['type'] == 'reference product':
            n = scaled(e, -1)
            n['type'] = 'from technosphere'
            d['exchanges'][i] = n
    return economic(d)


def subdivided(ds):
    """Combined production: one recalculated dataset per nonzero reference product."""
    from . import params
    out = []
    for rp in ds['exchanges']:
        if rp['type'] != 'reference product' or not rp['amount']:
            continue
        d = deepcopy(ds)
        excs = []
        for orig, e in zip(ds['exchanges'], d['exchanges']):
            if orig is rp:
                e.pop('formula', None)
                e.pop('uncertainty', None)
                excs.append(e)
            elif e['type'] == 'reference product':
                excs.append(dropped(e))
            else:
                excs.append(e)
        d['exchanges'] = excs
        out.append(params.recalculated(d))
    return out


def combined_with_byproducts(ds):
    parts = []
    for d in subdivided(ds):
        r = economic(d)
        if isinstance(r, str):
            return r
        parts += r
    groups, order = {}, []
    for d in parts:
        k = (d['name'], tuple(sorted(e['name'] for e in d['exchanges'] if e['type'] == 'reference product')))
        if k not in groups:
            groups[k] = d
            order.append(k)
        else:
            amounts = {e['id']: e['amount'] for e in d['exchanges']}
            for e in groups[k]['exchanges']:
                e['amount'] += amounts[e['id']]
    return [groups[k] for k in order]


def combined_without_products(ds):
    out = []
    for d in subdivided(ds):
        rp = [e for e in d['exchanges'] if e['type'] == 'reference product'][0]
        if rp['byproduct classification'] == 'waste':
            r = waste(d)
        elif rp['byproduct classification'] == 'recyclable':
            d['name'] = '%s, from %s' % (d['name'], rp['name'])
            r = recycling(d)
        else:
            return 'InvalidExchange'
        if isinstance(r, str):
            return r
        out += r
    return out


def dispatched(ds):
    """What cut-off allocation must make of one dataset: list of datasets, or an error name."""
    from . import unc
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product']
    nonzero = [e for e in rps if e['amount'] != 0]
    useful = [e for e in ds['exchanges'] if e['type'] == 'byproduct'
              and e['byproduct classification'] == 'allocatable product']
    if len(nonzero) == 1 and not any(e['amount'] for e in useful):
        return [deepcopy(ds)]
    if ds['type'] == 'market activity' and any(e.get('conditional exchange') for e in ds['exchanges']):
        out = deepcopy(ds)
        out['exchanges'] = [
            dropped(e) if e['type'] == 'byproduct' and e.get('conditional exchange') else deepcopy(e)
            for e in ds['exchanges']]
        return [out]
    if ds['type'] in ('market activity', 'market group'):
        if len(rps) != 1 or useful:
            return 'InvalidMultioutputDataset'
        return [deepcopy(ds)]
    try:
        if len(nonzero) > 1:
            if not any(e.get('byproduct classification') == 'allocatable product' for e in rps):
                return combined_without_products(ds)
            if any(e['amount'] for e in useful):
                return combined_with_byproducts(ds)
            return subdivided(ds)
        if any(e['amount'] < 0 for e in rps):
            if nonzero[0]['byproduct classification'] == 'waste':
                return waste(ds)
            return recycling(ds)
        return economic(ds)
    except unc.Invalid:
        return 'ValueError'
