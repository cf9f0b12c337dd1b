"""Reference model of spatial linking, written over face sets.

Datasets are identified by (name, product, location); the implementation's
hash codes are translated to these keys before comparison.
"""
from copy import deepcopy

from .alloc import scaled
from .geo import FACES, overlapping, place

SUFFIX = ', Recycled Content cut-off'


class Rejected(Exception):
    pass


def rp_of(ds):
    rps = [e for e in ds['exchanges'] if e['type'] == 'reference product']
    if len(rps) != 1:
        raise Rejected('%d reference products' % len(rps))
    return rps[0]


def useful(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product' or (
        e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product')]


def key(ds):
    return (ds['name'], rp_of(ds)['name'], ds['location'])


def original_pv(ds):
    pv = rp_of(ds).get('production volume', {})
    return pv.get('original amount', pv.get('amount', 0))


def relabel(data):
    groups = {}
    for ds in data:
        k = (ds['name'], tuple(sorted(e['name'] for e in useful(ds) if e['amount'])))
        groups.setdefault(k, []).append(ds)
    for group in groups.values():
        if group[0]['type'] == 'market group' or len(group) < 2:
            continue
        glo = [d for d in group if d['location'] == 'GLO']
        if not glo:
            continue
        if len(glo) > 1:
            raise Rejected('two global datasets')
        regional = sum(original_pv(d) for d in group if d is not glo[0])
        pv = rp_of(glo[0])['production volume']
        pv['global amount'] = pv['amount']
        pv['amount'] = max(pv['amount'] - regional, 0)
        glo[0]['location'] = 'RoW'
    return data


def by_product(data, *types):
    out = {}
    for d in data:
        if d['type'] in types:
            out.setdefault(rp_of(d)['name'], []).append(d)
    return out


def locs(dss):
    return [d['location'] for d in dss]


def market_suppliers(market, markets, activities):
    """Activities completely inside the market, RoW resolved per technology / per product."""
    here = place(market['location'], locs(markets))
    techs = {}
    for a in activities:
        techs.setdefault(a['name'], []).append(a)
    out = []
    for group in techs.values():
        if overlapping(locs(group)):
            raise Rejected('overlapping activities')
        for a in group:
            there = place(a['location'], locs(group))
            if there and there <= here:
                out.append(a)
    return out


def biggest_first(candidates, row_faces):
    """Locations from big to small; ties by name, backwards."""
    size = {l: len(row_faces if l == 'RoW' else FACES[l]) for l in candidates}
    return sorted(candidates, key=lambda l: (size[l], l), reverse=True)


def cover(here, ordered, where, skip=()):
    """Greedy cover: biggest candidates inside what the former ones left (RoW leaves all)."""
    left, found = set(here), []
    for l in ordered:
        f = where(l)
        if f and f <= left:
            if l in skip:
                continue
            found.append(l)
            if l != 'RoW':
                left -= f
    return found


class Linked:
    def __init__(self, data):
        self.data = data
        self.links = {}    # id(exchange) -> key of the supplier
        self.keep = []     # linked or replaced exchanges, whose id() must not be used again

    def link(self, exc, ds):
        self.keep.append(exc)
        self.links[id(exc)] = key(ds)

    def supply(self, ds, sup, volumes):
        rp = rp_of(ds)
        parts = share(rp, sup, volumes)
        for f, s in parts or ():
            e = {'amount': f * rp['amount'], 'name': rp_of(s)['name'], 'unit': rp_of(s)['unit'],
                 'type': 'from technosphere', 'tag': 'intermediateExchange'}
            ds['exchanges'].append(e)
            self.link(e, s)


def share(exc, suppliers, volumes):
    """[(fraction, supplier)] or None if nothing can be said."""
    total = sum(volumes)
    if not total:
        return [(1., suppliers[0])] if len(suppliers) == 1 else None
    return [(v / total, s) for v, s in zip(volumes, suppliers) if v]


def link(data):
    """Link single-output datasets; returns Linked (datasets are modified)."""
    for d in data:
        rp_of(d)
    relabel(data)
    if any(d['type'] == 'market group' and d['location'] == 'RoW' for d in data):
        raise Rejected('RoW market group')
    keys = [(tuple(x.lower() for x in key(d)), d.get('start date'), d.get('end date')) for d in data]
    if len(set(keys)) != len(keys):
        raise Rejected('identical datasets')
    out = Linked(data)
    hard = set()
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link'):
                t = [x for x in data if x['id'] == e['activity link'] and rp_of(x)['name'] == e['name']]
                if len(t) == 1:
                    out.link(e, t[0])
                    if t[0] is not d:
                        hard.add(id(t[0]))
    # -- markets
    markets = by_product(data, 'market activity')
    acts = by_product(data, 'transforming activity')
    suppliers = {}
    for product, ms in markets.items():
        if overlapping(locs(ms)):
            raise Rejected('overlapping markets')
        if len(set(locs(ms))) != len(ms):
            raise Rejected('two markets in one place')
        rc = [a for a in acts.get(product + SUFFIX, [])]
        rest = []
        for m in ms:
            s = market_suppliers(m, ms, rc) if rc else []
            suppliers[id(m)] = s
            if not s:
                rest.append(m)
        for m in rest:
            suppliers[id(m)] = market_suppliers(m, rest, acts.get(product, []))
    for ms in markets.values():
        for m in ms:
            pv = rp_of(m)['production volume']
            sup = [rp_of(s)['production volume'] for s in suppliers[id(m)]]
            pv['amount'] = max(sum(v['amount'] for v in sup) - pv.get('subtracted activity link volume', 0), 0)
    # -- RoW without production volume
    for typ in ('market activity', 'transforming activity'):
        for group in by_product(data, typ).values():
            if len(group) > 1:
                for d in group:
                    if d['location'] == 'RoW' and not original_pv(d) and id(d) not in hard:
                        data[:] = [x for x in data if x is not d]

    pvs = {id(d): rp_of(d).get('production volume', {}).get('amount', 0) for d in data}
    for ms in by_product(data, 'market activity').values():
        for m in ms:
            sup = suppliers[id(m)]
            out.supply(m, sup, [rp_of(s)['production volume']['amount'] for s in sup])
    # -- market groups
    groups = by_product(data, 'market group')
    markets = by_product(data, 'market activity')
    chosen = {}
    for product, gs in groups.items():
        if len({g['name'] for g in gs}) != 1:
            raise Rejected('market group names')
        ms = {m['location']: m for m in markets.get(product, [])}
        gl = {g['location']: g for g in gs}
        row = place('RoW', ms)
        order = biggest_first(set(ms) | set(gl), row)
        for loc, g in gl.items():
            found = cover(FACES[loc], order, lambda l: row if l == 'RoW' else FACES[l],
                          skip=() if loc in ms else (loc,))
            chosen[id(g)] = [ms.get(l) or gl[l] for l in found]
    every = [g for gs in groups.values() for g in gs]
    every.sort(key=lambda g: len(FACES[g['location']]))
    for g in every:
        pv = rp_of(g)['production volume']
        sup = chosen.get(id(g), [])
        pv['amount'] = max(sum(rp_of(s)['production volume']['amount'] for s in sup)
                           - pv.get('subtracted activity link volume', 0), 0)
    for g in every:
        sup = chosen.get(id(g), [])
        out.supply(g, sup, [rp_of(s)['production volume']['amount'] for s in sup])
    # -- consumers
    rcs = {}
    for p, a in by_product(data, 'transforming activity').items():
        if SUFFIX in p and len(a) == 1:
            rcs[p] = a[0]
    for d in data:
        for e in d['exchanges']:
            if e['type'] == 'from technosphere' and id(e) not in out.links and e['name'] in rcs:
                out.link(e, rcs[e['name']])
    return consumers(out, markets, groups)


def consumers(out, markets, groups):
    """Link what is left to markets and market groups; delete what nobody sells."""
    data = out.data
    techs = {}
    for d in data:
        techs.setdefault((d['type'], d['name'], rp_of(d)['name']), []).append(d)
    for d in data:
        if d['type'] == 'market group':
            continue
        here = place(d['location'], locs(techs[d['type'], d['name'], rp_of(d)['name']]))
        for e in list(d['exchanges']):
            if e['type'] != 'from technosphere' or id(e) in out.links:
                continue
            ms = {m['location']: m for m in markets.get(e['name'], [])}
            gs = {g['location']: g for g in groups.get(e['name'], [])}
            if not ms and not gs:
                if e['name'] == 'refinery gas':
                    continue
                raise Rejected('no market for %s' % e['name'])
            row = place('RoW', ms)
            where = lambda l: row if l == 'RoW' else FACES[l]
            order = biggest_first(set(ms) | set(gs), row)
            found = cover(here, order, where)
            if not found and here:
                found = [l for l in reversed(order) if where(l) >= here][:1]
            sup = [ms.get(l) or gs[l] for l in found]
            if len(sup) == 1:
                out.link(e, sup[0])
                continue
            parts = share(e, sup, [rp_of(s)['production volume']['amount'] for s in sup]) if sup else None
            if not parts:
                continue
            for f, s in parts:
                n = scaled(e, f)
                n.update(type='from technosphere', tag='intermediateExchange')
                d['exchanges'].append(n)
                out.link(n, s)
            d['exchanges'] = [x for x in d['exchanges'] if x is not e]
    for d in data:
        d['exchanges'] = [e for e in d['exchanges']
                          if e['type'] != 'from technosphere' or id(e) in out.links]
    return out


def compare(expected, got):
    """Problems of the implementation's linked database against the model's."""
    from .common import diff, same
    codes = {}
    for d in got:
        if d['code'] in codes:
            return ['code %s used twice' % d['code']]
        codes[d['code']] = key(d)
    want = {(key(d), d.get('start date'), d['id']): d for d in expected.data}
    have = {(key(d), d.get('start date'), d['id']): d for d in got}
    out = ['missing dataset %r' % (k,) for k in want if k not in have]
    out += ['unexpected dataset %r' % (k,) for k in have if k not in want]
    if out or len(have) != len(got):
        return out or ['duplicate datasets']
    for k, w in want.items():
        h = have[k]
        for f in ('type', 'name', 'location', 'id'):
            if w[f] != h[f]:
                out.append('%r: %s is %r' % (k, f, h[f]))
        if h.get('reference product') != key(h)[1]:
            out.append('%r: labelled %r' % (k, h.get('reference product')))
        we = [dict(e, link=expected.links.get(id(e))) for e in w['exchanges']]
        he = []
        for e in h['exchanges']:
            e = dict(e)
            c = e.pop('code', None)
            if 'original total' in e.get('production volume', ()):    # bookkeeping, not part of the result
                e['production volume'] = {a: b for a, b in e['production volume'].items() if a != 'original total'}
            if e['type'] == 'reference product':
                if c != h['code']:
                    out.append('%r: product has code of %r' % (k, codes.get(c)))
                c = None
            if c is not None and c not in codes:
                out.append('%r: %s linked to a dataset that does not exist' % (k, e['name']))
            e['link'] = codes.get(c)
            he.append(e)
        for e in we:
            for i, g in enumerate(he):
                if same(e, g):
                    he.pop(i)
                    break
            else:
                near = [g for g in he if g['name'] == e['name'] and g['type'] == e['type']]
                out.append('%r: expected %s, found %s' % (k, show(e), [show(x) for x in near] or 'nothing'))
                if len(near) == 1:
                    out.append('    %r' % diff(e, near[0]))
        if len(h['exchanges']) != len(w['exchanges']):
            out.append('%r: %d exchanges, expected %d: %s' % (
                k, len(h['exchanges']), len(w['exchanges']), [show(x) for x in he]))
    return out


def show(e):
    return '%s %s %r -> %r' % (e['type'], e['name'], e['amount'], e.get('link'))
