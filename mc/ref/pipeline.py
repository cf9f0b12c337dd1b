"""Reference model of the complete cut-off system model, as a composition of the parts."""
from copy import deepcopy

from . import alloc, hard, link, unc
from .link import Rejected, SUFFIX, rp_of


def waste_outputs(data):
    new = {}
    for d in data:
        for e in d['exchanges']:
            if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable':
                e['name'] += SUFFIX
                ds = {k: d[k] for k in ('access restricted', 'economic scenario', 'end date', 'filepath', 'id',
                                        'start date', 'technology level', 'dataset author', 'data entry')}
                ds.update(name=e['name'], location='GLO', type='transforming activity', parameters=[], exchanges=[{
                    'amount': 1, 'id': e['id'], 'name': e['name'], 'unit': e['unit'], 'tag': 'intermediateExchange',
                    'type': 'reference product', 'production volume': {'amount': 4}}])
                new[e['name']] = ds
    return data + list(new.values())


def flip(data):
    for d in data:
        for i, e in enumerate(d['exchanges']):
            if e['type'] == 'byproduct' and e['byproduct classification'] != 'allocatable product':
                e = alloc.scaled(e, -1)
                e['type'] = 'from technosphere'
                del e['byproduct classification']
                if 'formula' in e:
                    e['formula'] = '-1 * (%s)' % e['formula']
                d['exchanges'][i] = e
    return data


def cutoff(data):
    if len({d['id'] for d in data}) != len(data):
        raise Rejected('ids')
    for d in data:
        for e in d['exchanges']:
            e['original id'] = e['id']
    for d in data:
        if d['type'] == 'market activity':
            rp = rp_of(d)
            if any(e is not rp and e['name'] == rp['name'] and not e.get('activity link') for e in d['exchanges']):
                raise Rejected('market consumes its product')
        if any('production volume' not in e for e in link.useful(d)):
            raise Rejected('no production volume')
    for d in data:
        try:
            unc.repair_inplace(d)
        except unc.Invalid:
            raise Rejected('uncertainty')
    hard.volumes(data)
    for d in data:
        d['exchanges'] = [e for e in d['exchanges'] if not any(
            p['name'] == 'consequential' and p['amount'] == 1 for p in e.get('properties', []))]
    hard.cleanup(data)
    hard.parents(data)
    hard.manage(data)
    data = waste_outputs(data)
    out = []
    for d in data:
        r = alloc.dispatched(d)
        if isinstance(r, str):
            raise Rejected('allocation: ' + r)
        out += r
    data = flip(out)
    for d in data:
        for e in d['exchanges']:
            if e['type'] in ('reference product', 'dropped product'):
                e.pop('activity link', None)
    linked = link.link(data)

    def replace(d, i, new):
        old = d['exchanges'][i]
        if id(old) in linked.links:
            linked.links[id(new)] = linked.links[id(old)]
        keep.append(old)
        d['exchanges'][i] = new
    keep = []
    for d in linked.data:
        for e in d['exchanges']:
            if e['name'].endswith(SUFFIX):
                e['name'] = e['name'][:-len(SUFFIX)]
        rp = rp_of(d)
        if not rp['amount']:
            raise Rejected('zero production')
        f = 1 / abs(rp['amount'])
        for i, e in enumerate(list(d['exchanges'])):
            replace(d, i, alloc.scaled(e, f))
        rp = rp_of(d)
        if d['type'] == 'market activity' and rp['byproduct classification'] != 'waste' and rp['amount'] < 0:
            every = all(e['amount'] <= 0 for e in d['exchanges'])
            for i, e in enumerate(list(d['exchanges'])):
                if every or e['name'] == rp['name']:
                    replace(d, i, alloc.scaled(e, -1))
    linked.links = {k: tuple(v) for k, v in linked.links.items()}
    # products lost their suffix, so did the keys of their datasets
    linked.links = {k: (v[0], v[1][:-len(SUFFIX)] if v[1].endswith(SUFFIX) else v[1], v[2]) for k, v in linked.links.items()}
    linked.keep += keep
    return linked
