"""S04 -- exactly the chosen intermediate results are saved, as they were at that time."""
import os

from ..engine import Skip, explore
from ..ref import runs
from ..ref.check import Raised, call

from ocelot.collection import Collection
from ocelot.model import system_model
from ocelot.results import SaveStrategy


def meaning(spec):
    """The documented meaning of a strategy: index -> saved?  None: invalid."""
    if spec is None:
        return lambda i: i % 1000 == 0
    text = str(spec)
    parts = text.split(':')
    try:
        nums = [int(x) for x in parts]
    except ValueError:
        return None
    if len(nums) == 1:
        return (lambda i: i % nums[0] == 0) if nums[0] >= 1 else None
    if len(nums) == 2:
        return lambda i: nums[0] <= i <= nums[1]
    if len(nums) == 3 and nums[2] >= 1:
        return lambda i: nums[0] <= i <= nums[1] and (i - nums[0]) % nums[2] == 0
    return None


def specs(top, steps):
    out = [None]
    out += [f(a) for a in range(-1, top + 1) for f in (int, str)]
    out += ['%d:%d' % (a, b) for a in range(top) for b in range(top)]
    out += ['%d:%d:%d' % (a, b, k) for a in range(top) for b in range(top) for k in steps]
    out += ['', ':', '1:', ':2', '1:2:', 'x', '1:x', '1:2:x', '1.5', 'a:b', '1:2:3:4', '1:5:0']
    return out


def strategy(top, steps):
    options = specs(top, steps)

    def scenario(c):
        spec = c.choose('strategy', options)
        want = meaning(spec)
        got = call(c, SaveStrategy, spec)
        c.state(repr(spec))
        if want is None:
            c.expect(isinstance(got, Raised), lambda: '%r is accepted' % (spec,))
            c.outcome('rejected')
            return
        c.expect(not isinstance(got, Raised), lambda: '%r is rejected: %r' % (spec, got))
        have = [i for i in range(2 * top + 3) if got(i)]
        must = [i for i in range(2 * top + 3) if want(i)]
        c.expect(have == must, lambda: '%r saves %r instead of %r' % (spec, have, must))
        # in any order, again and again
        c.expect([bool(got(i)) for i in (1000, 999, 0, 1, 2000, 0)] == [bool(want(i)) for i in (1000, 999, 0, 1, 2000, 0)], lambda: '%r: later' % (spec,))
        c.outcome(tuple(have))
    return scenario


def steps(n, nested, names):
    def make(i):
        def f(data):
            # in place, so that later changes could show in earlier results
            for d in data:
                d['trace'] = d.get('trace', ()) + (i,)
                d['exchanges'][0]['amount'] = float(i)
            if i == 2:
                data = data[1:]
            return data
        f.__name__ = {'plain': 'f%d' % i, 'same': 'f', 'odd': '<f> ä/../%d' % i, 'long': 'f%d' % i + 'x' * 150}[names]
        return f
    fs = [make(i) for i in range(n)]
    if nested and n > 1:
        return [fs[0], Collection('inner', *fs[1:-1]), [fs[-1]]]
    return fs


def full(n):
    options = [None, 1, 2, 3, '1', '1:2', '0:%d' % n, '2:9', '1:%d:2' % n, '0:3:3', '9:12', '3:1']

    def scenario(c):
        spec = c.choose('strategy', options)
        follow = c.choose('follow', (None, 'a.spold', '.spold', 'b', 'nothing', 'path'))
        k = c.choose('functions', (n, 1, 2), dev=True)
        nested = c.flag('nested', dev=True)
        names = c.choose('names', ('plain', 'same', 'odd', 'long'), dev=True)
        src = runs.source()
        place = runs.Place()
        try:
            if follow == 'path':
                follow = src.fp('a.spold')
            got = call(c, system_model, src.path, steps(k, nested, names), False, True, save_strategy=spec, follow=follow)
            c.expect(isinstance(got, tuple), lambda: repr(got))
            out, data = got
            # the history of the data
            now = [(os.path.basename(f), (), v) for f, v in src.expected()]
            history = []
            for i in range(k):
                now = [(f, tr + (i,), float(i)) for f, tr, _ in now]
                if i == 2:
                    now = now[1:]
                history.append(now)
            show = lambda ds: [(os.path.basename(d['filepath']), tuple(d.get('trace', ())), d['exchanges'][0]['amount']) for d in ds]
            saved = runs.intermediate(out.directory)
            want = {str(i): history[i] for i in range(k) if meaning(spec)(i)}
            want['final-results'] = history[-1]
            have = {i: show(d) for i, d in saved.items()}
            c.expect(have == want, lambda: 'saved %r instead of %r' % (have, want))
            c.expect(saved['final-results'] == data, 'final results')
            if names == 'plain':
                c.expect(all('f%d' % i in f for i in range(k) for f in os.listdir(out.directory) if f.startswith('%d.' % i)), lambda: 'files %r' % os.listdir(out.directory))
            recs = runs.followed(out.directory)
            mine = lambda f: follow and follow in src.fp(f)
            want = {i: [x for x in history[i] if mine(x[0])] for i in range(k)}
            want = {i: x for i, x in want.items() if x}
            have = {i: show(r['datasets']) for i, r in recs.items()}
            c.expect(have == want, lambda: 'followed %r instead of %r' % (have, want))
            c.expect(all(r['follow string'] == follow for r in recs.values()), 'follow string')
            title = {'plain': 'f%d', 'same': 'f', 'odd': '<f> ä/../%d', 'long': 'f%d' + 'x' * 150}[names]
            c.expect(all(r['function name'] == (title % i if '%' in title else title) for i, r in recs.items()), lambda: 'function names %r' % [r['function name'] for r in recs.values()])
            c.state((spec, follow and os.path.basename(follow), k, nested, names))
            c.outcome((tuple(sorted(saved)), tuple(sorted(have))))
        finally:
            place.close()
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    runs.source()
    rep.add('strategies', explore('strategies', strategy(13 if big else 8, range(1, 8 if big else 5))), 'all strategies with numbers up to %d, and malformed ones' % (13 if big else 8))
    rep.add('complete runs', explore('complete runs', full(6 if big else 5), bound=3 if big else 2), 'complete runs: strategies x followed files, <=%d deviations' % (3 if big else 2))
