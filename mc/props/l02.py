"""L02 -- hard links: resolved or rejected, and their volumes taken from the right product."""
from copy import deepcopy

from ..engine import explore
from ..gen import dataset, product
from ..ref import hard, link
from ..ref.check import Raised, call, ds_equal
from ..world import act, market, need
from .l03 import run_link

from ocelot.transformations import manage_activity_links, update_activity_link_parent_child
from ocelot.transformations.production_volumes import add_pv_to_allocatable_byproducts
from ocelot.transformations.cutoff import cleanup_activity_links


def compare(c, data, fn, model, what):
    """One step of the chain; returns the data or None when it was rejected."""
    before = deepcopy(data)
    try:
        expected = model(deepcopy(before))
    except link.Rejected as e:
        expected = e
    got = call(c, lambda: fn(data))
    if isinstance(expected, link.Rejected):
        c.outcome('%s %s' % (what, expected))
        c.expect(isinstance(got, Raised), lambda: '%s: accepted although: %s' % (what, expected))
        return None
    c.expect(isinstance(got, list), lambda: '%s: rejected: %r' % (what, got))
    c.expect(sorted(d['id'] for d in got) == sorted(d['id'] for d in expected), what + ': datasets appeared or disappeared')
    have = {d['id']: d for d in got}
    for d in expected:
        p = ds_equal(d, have[d['id']])
        c.expect(not p, lambda: '%s: %s: %s' % (what, d['id'], p))
    return got


def link_to(c, label, targets):
    """An input or by-product which may be hard linked."""
    t = c.choose(label, targets)
    if not t:
        return []
    target, name = t
    kind = c.choose(label + ' kind', ('input', 'by-product', 'useful by-product'), dev=True)
    amount = c.choose(label + ' amount', (0.5, -0.25, 0.), dev=True)
    if kind == 'input':
        return [need(name, amount, id=label, **{'activity link': target})]
    return [product(label, name, amount, pv=4., type='byproduct',
                    classification='waste' if kind == 'by-product' else 'allocatable product', **{'activity link': target})]


TARGETS = (None, ('t', 'a'), ('t', 'b'), ('m', 'a'), ('u', 'c'), ('x', 'a'), ('t', 'none'), (hard.OLD, 'a'))


def accounting(targets):
    def scenario(c):
        # the target: two useful products and one waste
        t = dataset('t', 'making', 'GLO', exchanges=[
            product('1', 'a', 1., pv=c.choose('volume of target', (1000., 2.)), classification='allocatable product'),
            product('2', 'b', 2., pv=c.choose('volume of by-product', (300., 0.)), type='byproduct', classification='allocatable product'),
            product('3', 'w', 1., pv=7., type='byproduct', classification='waste'), need('a', 0.25, id='5')])
        m = market('a', 'GLO', id='m', pv=50.)
        shape = c.choose('user', ('one product', 'two products', 'treatment', 'half', 'no product', 'market', 'two treatments', 'both'))
        rps = {'one product': [(1., 10.)], 'two products': [(1., 10.), (2., 80.)], 'treatment': [(-1., 10.)],
               'half': [(0.5, 10.)], 'no product': [(0., 10.)], 'market': [(1., 10.)],
               'two treatments': [(-1., 10.), (-2., 80.)], 'both': [(1., 10.), (-2., 80.)]}[shape]
        ex = [product('rp%d' % i, 'cd'[i], a, pv=v) for i, (a, v) in enumerate(rps)]
        ex += link_to(c, 'first link', targets) + link_to(c, 'second link', targets)
        u = dataset('u', 'using', 'CH', exchanges=ex, type='market activity' if shape == 'market' else 'transforming activity')
        extra = c.choose('third dataset', (None, 'links too', 'duplicate product'), dev=True)
        data = [t, m, u]
        if extra == 'links too':
            data.append(act('also', 'e', 'DE', pv=6., id='v', inputs=[need('a', 3., id='l', **{'activity link': 't'})]))
        elif extra == 'duplicate product':
            t['exchanges'].append(product('4', 'a', 1., pv=1., type='byproduct', classification='allocatable product'))
        p = c.choose('parent of user', (None, 't', 'm', 'other'), dev=True)
        u['parent'] = p
        c.state(repr(data))
        if c.flag('reversed', dev=True):
            data = data[::-1]
        for name, fn, model in (
                ('by-product volumes', add_pv_to_allocatable_byproducts, hard.volumes),
                ('cleanup', cleanup_activity_links, hard.cleanup),
                ('parent', update_activity_link_parent_child, hard.parents),
                ('manage', manage_activity_links, hard.manage)):
            data = compare(c, data, fn, model, name)
            if data is None:
                return
        c.outcome(sorted((d['id'], e['id'], sorted((k, v) for k, v in e.get('production volume', {}).items()), e.get('activity link'))
                         for d in data for e in d['exchanges']))
    return scenario


def resolution(c):
    """A hard-linked input is linked to its target, wherever that lies, and bypasses the markets."""
    data = [market('a', l) for l in c.choose('markets', (('GLO',), ('CH', 'GLO'), ('CH', 'DE'), ()))]
    pv = iter((3., 5., 7.))
    ts = c.choose('made in', (('GLO',), ('CH', 'GLO'), ('DE', 'CH', 'GLO')))
    for l in ts:
        data.append(act('making', 'a', l, pv=100. if l == 'GLO' else next(pv)))
    # one multi-output activity was allocated into two datasets with the same id
    data += [act('joint', 'a', 'CA', pv=2., id='j'), act('joint', 'b', 'CA', pv=4., id='j')]
    options = ['making/a/' + l for l in ts] + ['j', 'm/a/' + (data[0]['location'] if data[0]['type'] == 'market activity' else 'GLO')]
    ins = []
    for i in range(2):
        t = c.choose('link %d' % i, [None] + options)
        name = c.choose('product %d' % i, ('a', 'b', 'c'), dev=True)
        if t:
            ins.append(need(name, 0.5 + i, 'lognormal', id='l%d' % i, **{'activity link': t}))
    ins.append(need('a', 0.125, id='free'))
    data += [market('b', 'GLO')] if c.flag('market for b') else []
    kind = c.choose('consumer', (act, market))
    where = c.choose('consumer in', ('CH', 'CA', 'RER'))
    user = act('using', 'z', where, inputs=ins, id='u') if kind is act else market('z', where, inputs=ins, id='u')
    data.append(user)
    known = {d['id'] for d in data}
    if any(e.get('activity link') and e['activity link'] not in known for e in ins):
        c.choose('unknown target', ())
    if c.flag('consumer first', dev=True):
        data = data[-1:] + data[:-1]
    expected, got = run_link(c, data)
    if got:
        codes = {d['code']: (d['id'], d['reference product']) for d in got}
        for d in got:
            for e in d['exchanges']:
                t = e.get('activity link')
                if not t or e['type'] != 'from technosphere':
                    continue
                hit = [x for x in got if x['id'] == t and x['reference product'] == e['name']]
                if len(hit) == 1:
                    c.expect(e.get('code') == hit[0]['code'], lambda: 'hard link of %s to %s ends at %r' % (e['name'], t, codes.get(e.get('code'))))
        c.outcome(sorted((d['id'], sorted((codes[e['code']], e['amount']) for e in d['exchanges'] if e['type'] == 'from technosphere')) for d in got))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('accounting', explore('accounting', accounting(TARGETS), bound=2 if big else 1),
            'two links from one activity, targets %r, <=%d deviations' % (TARGETS, 2 if big else 1))
    rep.add('resolution', explore('resolution', resolution, bound=2 if big else 1),
            'two hard links and one free input of one consumer, <=1 deviation')
