"""Reference model of the consequential system model."""
from . import alloc, hard, link, unc
from .geo import overlapping, place
from .link import Linked, Rejected, by_product, consumers, key, locs, market_suppliers, relabel, rp_of

LEVELS = ('new', 'modern', 'current', 'old', 'outdated')


def best(suppliers):
    """Those with the best technology level."""
    for l in LEVELS:
        some = [s for s in suppliers if s['technology level'] == l]
        if some:
            return some
    if suppliers:
        raise Rejected('technology level')
    return []


def linked(data):
    for d in data:
        rp_of(d)
    relabel(data)
    keys = [(tuple(x.lower() for x in key(d)), d['start date'], d['end date']) for d in data]
    if len(set(keys)) != len(keys):
        raise Rejected('identical datasets')
    out = Linked(data)
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link'):
                t = [x for x in data if x['id'] == e['activity link']]
                if not t:
                    raise Rejected('no target')
                t = [x for x in t if rp_of(x)['name'] == e['name']]
                if len(t) == 1:
                    out.link(e, t[0])
    markets = by_product(data, 'market activity')
    groups = by_product(data, 'market group')
    acts = by_product(data, 'transforming activity')
    chosen = {}
    for product, ms in markets.items():
        if overlapping(locs(ms)):
            raise Rejected('overlapping markets')
        if len(set(locs(ms))) != len(ms):
            raise Rejected('two markets in one place')
        for m in ms:
            chosen[id(m)] = best(market_suppliers(m, ms, acts.get(product, [])))
    volume(data, 'market activity', chosen)
    for product, gs in groups.items():
        if len(set(locs(gs))) != len(gs):
            raise Rejected('two groups in one place')
        for g in gs:
            chosen[id(g)] = market_suppliers(g, gs, markets.get(product, []))
    volume(data, 'market group', chosen)
    for d in data:
        if id(d) in chosen:
            sup = chosen[id(d)]
            out.supply(d, sup, [rp_of(s)['production volume']['amount'] for s in sup])
    return consumers(out, markets, groups)


def volume(data, kind, chosen):
    for d in data:
        if d['type'] == kind:
            pv = rp_of(d)['production volume']
            pv['amount'] = max(0, sum(rp_of(s)['production volume']['amount'] for s in chosen[id(d)])
                               - pv.get('subtracted activity link volume', 0))


def flipped(e, typ):
    n = alloc.scaled(e, -1)
    if 'formula' in e:
        n['formula'] = '-1 * (%s)' % e['formula']
    n['type'] = typ
    return n


def constrained(data):
    """Constrained markets buy from the activity which used to consume."""
    for d in data:
        for i, e in enumerate(d['exchanges']):
            if not e.get('conditional exchange'):
                continue
            t = [x for x in data if x['id'] == e['activity link']]
            if not t:
                raise Rejected('no target')
            t = t[0]
            old = rp_of(t)
            new = [x for x in t['exchanges'] if x['name'] == e['name']]
            if len(new) != 1 or new[0]['type'] != 'from technosphere':
                raise Rejected('target does not consume')
            d['exchanges'][i] = flipped(e, 'from technosphere')
            for j, x in enumerate(t['exchanges']):
                if x is old:
                    t['exchanges'][j] = flipped(x, 'from technosphere')
                elif x is new[0]:
                    n = flipped(x, 'reference product')
                    n['byproduct classification'] = 'allocatable product'
                    t['exchanges'][j] = n
    return data


def split(data):
    out = []
    for d in data:
        if sum(e['type'] == 'reference product' for e in d['exchanges']) > 1:
            try:
                out += alloc.subdivided(d)
            except unc.Invalid:
                raise Rejected('allocation')
        else:
            out.append(d)
    return out


def alternatives(data):
    made = {e['name'] for d in data for e in d['exchanges'] if e['type'] == 'reference product'}
    if any(e['type'] == 'byproduct' and e['name'] not in made for d in data for e in d['exchanges']):
        raise Rejected('no alternative producer')
    return data


def complete(data):
    if len({d['id'] for d in data}) != len(data):
        raise Rejected('ids')
    for d in data:
        for e in d['exchanges']:
            e['original id'] = e['id']
    for d in data:
        if d['type'] == 'market activity':
            rp = rp_of(d)
            if any(e is not rp and e['name'] == rp['name'] and not e.get('activity link') for e in d['exchanges']):
                raise Rejected('market consumes its product')
        if any('production volume' not in e for e in link.useful(d)):
            raise Rejected('no production volume')
    for d in data:
        try:
            unc.repair_inplace(d)
        except unc.Invalid:
            raise Rejected('uncertainty')
    hard.volumes(data)
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link') and not e['amount']:
                del e['activity link']
    data = split(data)
    for d in data:
        for e in d['exchanges']:
            if not e.get('conditional exchange'):
                e.pop('activity link', None)
    out = linked(alternatives(constrained(data)))
    for d in out.data:
        amount = rp_of(d)['amount']
        if not amount:
            raise Rejected('zero production')
        for i, e in enumerate(d['exchanges']):
            n = alloc.scaled(e, 1 / abs(amount))
            if id(e) in out.links:
                out.links[id(n)] = out.links[id(e)]
            out.keep.append(e)
            d['exchanges'][i] = n
    return out
