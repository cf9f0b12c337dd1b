"""L10 -- the result of a run does not depend on input order, earlier runs or hash seeds."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from copy import deepcopy

from ..engine import Chooser, Skip, Violation, digest, explore, quiet
from ..gen import dataset, exchange, product
from ..ref import link
from ..ref.check import Raised, call
from ..world import act, group, market, need

from ocelot.configuration import cutoff_config

SUFFIX = link.SUFFIX


def num(x):
    return float('%.10g' % x) if isinstance(x, float) else x


def tidy(x):
    if isinstance(x, dict):
        return tuple(sorted((k, tidy(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(tidy(v) for v in x)
    return num(x)


def canonical(got):
    if isinstance(got, Raised):
        return 'raised ' + got.name
    codes = {d['code']: (d['name'], d['reference product'], d['location']) for d in got}
    out = []
    for d in got:
        d = dict(d)
        if d['name'].endswith(SUFFIX):
            # shared by all producers; its metadata comes from one of them
            d = {k: d[k] for k in ('name', 'location', 'type', 'exchanges', 'code', 'reference product')}
            d['exchanges'] = [{k: v for k, v in e.items() if k not in ('id', 'original id')} for e in d['exchanges']]
        d.pop('suppliers', None)
        ex = d.pop('exchanges')
        out.append((tidy({k: v for k, v in d.items() if k != 'parameters'}),  # values of merged parts are unspecified
                    tuple(sorted(repr((codes.get(e.get('code')), tidy({k: v for k, v in e.items() if k != 'code'}))) for e in ex))))
    return tuple(sorted(map(repr, out)))


def regions():
    """Regional markets and groups."""
    data = [act('making', 'a', l, pv=v, inputs=[need('b', 2., 'lognormal')]) for l, v in (('GLO', 100.), ('CH', 3.), ('CA', 5.), ('DE', 7.))]
    data += [market('a', l, inputs=[need('b', .5)]) for l in ('GLO', 'CH', 'DE')]
    data += [group('a', l) for l in ('RER', 'GLO')]
    data += [act('other making', 'a', 'DE', pv=2.), act('b making', 'b', 'GLO', inputs=[need('a', 1., 'triangular')]), market('b', 'GLO'), act('b making', 'b', 'RER', inputs=[need('a', 1.)])]
    # these have no market inside
    data += [act('using', 'c', l, inputs=[need('a', 1.), need('b', 2.)]) for l in ('FR', 'NO', 'CA-QC')] + [market('c', 'GLO')]
    return data


def wastes():
    slag = lambda: product('slag', 'slag', .25, type='byproduct', classification='waste', pv=1., uncertainty='uniform')
    scrap = lambda: product('scrap', 'scrap', .125, type='byproduct', classification='recyclable', pv=1.)
    data = [act('steel making', 'steel', l, pv=v, inputs=[need('electricity', 3.), slag(), scrap()]) for l, v in (('GLO', 50.), ('CH', 20.))]
    data.append(dataset('burn', 'treatment', 'GLO', exchanges=[product('rp', 'slag', -1., pv=8., classification='waste'),
                product('byel', 'electricity', .5, pv=0., type='byproduct', classification='allocatable product', price=3.), exchange('e', 'to environment', 'CO2', 2.)]))
    data.append(dataset('recycle', 'recycling', 'GLO', exchanges=[product('rp', 'scrap', -1., pv=6., classification='recyclable'),
                product('st', 'steel', .5, pv=0., type='byproduct', classification='allocatable product', price=2.), need('electricity', 1.)]))
    data += [act('power', 'electricity', 'GLO', pv=40.), market('steel', 'GLO'), market('electricity', 'GLO'), market('slag', 'GLO', amount=-1., cls='waste'),
             market('scrap', 'GLO', amount=-1., cls='recyclable')]
    return data


def links():
    data = [dataset('chp', 'heat and power', 'GLO', exchanges=[
        product('el', 'electricity', 2., pv=400., classification='allocatable product', price=3.),
        product('heat', 'heat', 1., pv=0., type='byproduct', classification='allocatable product', price=1.),
        exchange('gas', 'from environment', 'gas', 4., 'normal')])]
    data += [act('steel making', 'steel', l, pv=v, id='s' + l, parent=p, inputs=[
        need('electricity', 1., id='h1', **{'activity link': 'chp'}), need('heat', 2., id='h2', **{'activity link': 'chp'}),
        need('steel', .5, id='h3', **{'activity link': 'sGLO'})]) for l, v, p in (('GLO', 50., None), ('CH', 20., 'sGLO'))]
    data += [market(x, 'GLO', inputs=[need(x, .1, id='loss', **{'activity link': 'm/%s/GLO' % x})]) for x in ('electricity', 'heat', 'steel')]
    return data


def combined():
    def ex():
        return [product('el', 'electricity', 2., pv=40., classification='allocatable product', price=3., variable='el'),
                product('heat', 'heat', 1., pv=10., classification='allocatable product', price=1., variable='heat'),
                product('ash', 'ash', .5, pv=1., type='byproduct', classification='allocatable product', price=.5),
                exchange('gas', 'from environment', 'gas', 5., formula='gasneed', variable='gas'),
                exchange('co2', 'to environment', 'CO2', 10., formula='gas * 2 + Coeff')]
    data = [dataset('c' + l, 'heat and power', l, exchanges=ex(), parameters=[
        {'id': 'p1', 'name': 'need', 'variable': 'gasneed', 'formula': 'el * 2 + heat', 'amount': 5.},
        {'id': 'p2', 'name': 'coeff', 'variable': 'Coeff', 'amount': .5}]) for l in ('GLO', 'CH')]
    return data + [market(x, 'GLO') for x in ('electricity', 'heat', 'ash')] + [market('electricity', 'CH')]


def refused():
    data = regions()
    data.append(market('b', 'CH'))
    data.append(market('b', 'RER'))
    return data


DATABASES = {f.__name__: f for f in (regions, wastes, links, combined, refused)}
BASE = {}


def base(name):
    if name not in BASE:
        try:
            BASE[name] = canonical(cutoff_config(DATABASES[name]()))
        except Exception as e:
            BASE[name] = canonical(Raised(e))
    return BASE[name]


def same(c, got, name, what):
    a, b = base(name), canonical(got)
    c.outcome(name)

    def text():
        if isinstance(a, str) or isinstance(b, str):
            return '%s: %s instead of %s' % (what, str(b)[:300], str(a)[:300])
        return '%s: %s instead of %s' % (what, [x for x in b if x not in a][:2], [x for x in a if x not in b][:2])
    c.expect(a == b, lambda: text()[:2000])


def orders(k):
    def scenario(c):
        """All orders of k datasets (each k in turn) and of the exchanges in one dataset."""
        name = c.choose('database', tuple(DATABASES))
        data = DATABASES[name]()
        n = len(data)
        start = c.choose('window', range(0, n, max(1, k - 1)))
        idx = [i % n for i in range(start, start + min(k, n))]
        if len(set(idx)) != len(idx):
            raise Skip
        perm = c.permutation('order', idx)
        new = list(data)
        for i, j in zip(sorted(idx), perm):
            new[i] = data[j]
        if c.flag('backwards', dev=True):
            new = new[::-1]
        x = c.choose('exchanges', ('as is', 'reversed', 'rotated'), dev=True)
        for d in new:
            if x == 'reversed':
                d['exchanges'] = d['exchanges'][::-1]
            elif x == 'rotated':
                d['exchanges'] = d['exchanges'][1:] + d['exchanges'][:1]
        c.state((name, [d['id'] for d in new], x))
        same(c, call(c, lambda: cutoff_config(new)), name, 'another order of datasets or exchanges')
    return scenario


def histories(n):
    def scenario(c):
        """All sequences of runs in one process."""
        hist = []
        for i in range(n):
            hist.append(c.choose('run', tuple(DATABASES)))
            c.state(tuple(hist))
            data = DATABASES[hist[-1]]()
            same(c, call(c, lambda: cutoff_config(data)), hist[-1], 'after %r' % hist[:-1])
    return scenario


def digests():
    return {n: digest(repr(base(n))).hex() for n in sorted(DATABASES)}


DONE = {}


def spawn(seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = 'import sys; sys.path[:0] = %r; from mc.props import l10; import json; print(json.dumps(l10.digests()))' % ([here] + sys.path,)
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, cwd=here, capture_output=True, text=True)
    DONE[seed] = r.returncode, r.stdout, r.stderr


def seeds(c):
    """Fresh processes with other hash seeds give the same databases."""
    seed = c.choose('hash seed', SEEDS)
    c.state(seed)
    if seed not in DONE:
        spawn(seed)
    code, out, err = DONE[seed]
    c.step(len(DATABASES))
    c.expect(code == 0, lambda: 'run failed with hash seed %s: %s' % (seed, err[-600:]))
    got = json.loads(out.strip().splitlines()[-1])
    mine = digests()
    c.expect(got == mine, lambda: 'hash seed %s changes the result of %r' % (seed, [k for k in mine if got.get(k) != mine[k]]))
    c.outcome(repr(got))


SEEDS = tuple(range(2, 18))


def run(rep, tier):
    global SEEDS
    big = tier == 'thorough'
    if big:
        SEEDS = tuple(range(2, 130))
    k = 6 if big else 4
    rep.add('orders', explore('orders', orders(k), bound=1), '5 databases: all orders of every window of %d datasets, exchange orders' % k)
    rep.add('histories', explore('histories', histories(4 if big else 3)), 'all sequences of runs in one process')
    spawn(SEEDS[0])     # also fills the byte code cache of this run
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(spawn, SEEDS[1:]))
    rep.add('hash seeds', explore('hash seeds', seeds), '%d hash seeds in fresh processes' % len(SEEDS))
    for n in DATABASES:
        rep.assume('%s: %s' % (n, 'rejected' if isinstance(base(n), str) else '%d datasets' % len(base(n))))
