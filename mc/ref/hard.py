"""Reference model of hard (activity) links and of by-product volumes."""
from .link import Rejected, useful

OLD = '25edb027-d7c0-4756-a051-cab82e4f6248'


def level(ds):
    """Size of the activity: biggest volume per unit of its reference products."""
    r = [e['production volume']['amount'] / e['amount'] for e in ds['exchanges']
         if e['type'] == 'reference product' and e['amount']]
    if not r:
        raise Rejected('no production')
    return max(map(abs, r))


def cleanup(data):
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link') and (e['type'] in ('reference product', 'dropped product') or not e['amount']):
                del e['activity link']
    return data


def parents(data):
    for d in data:
        mine = [id(e) for e in useful(d)]
        for e in d['exchanges']:
            if d['parent'] and e.get('activity link') == d['parent'] and id(e) not in mine:
                e['activity link'] = d['id']
    return data


def manage(data):
    ids = {d['id']: d for d in data}
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link') == OLD:
                del e['activity link']
    links = []
    for d in data:
        for e in d['exchanges']:
            if e.get('activity link'):
                t = ids.get(e['activity link'])
                if t is None:
                    raise Rejected('no target')
                f = [x for x in useful(t) if x['name'] == e['name']]
                if len(f) != 1:
                    raise Rejected('%d candidates' % len(f))
                links.append((d, e, t, f[0]))
    for d, e, t, x in links:
        if t is d:
            continue
        pv = x['production volume']
        pv['subtracted activity link volume'] = pv.get('subtracted activity link volume', 0) + e['amount'] * level(d)
    for d in data:
        if d['type'] != 'transforming activity':
            continue
        for x in useful(d):
            pv = x['production volume']
            if 'subtracted activity link volume' in pv:
                pv['original amount'] = pv['amount']
                pv['amount'] = max(0, pv['amount'] - pv['subtracted activity link volume'])
    return data


def volumes(data):
    """Volumes of allocatable by-products which give none."""
    for d in data:
        by = [e for e in useful(d) if e['type'] == 'byproduct']
        if by:
            s = level(d)
            for e in by:
                if not e['production volume']['amount']:
                    e['production volume']['amount'] = abs(e['amount']) * s
    return data
