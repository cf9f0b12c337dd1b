"""S02 -- crashes, faults and concurrent runs never damage the cache."""
import glob
import os
import shutil

from ..engine import Skip, Violation, explore
from ..ref import procs
from ..ref.source import Source, seen, tick

from ocelot.io import extract_directory

STARTS = ('no cache', 'stale cache', 'fresh cache', 'first use')


def cache_files():
    from ocelot.filesystem import get_cache_directory
    return sorted(glob.glob(os.path.join(get_cache_directory(), '*')))


def clear():
    for f in cache_files():
        os.remove(f)


def go(src):
    return lambda: seen(extract_directory(src.path, True, False))


def prepare(start, names=('a.spold', 'b.spold')):
    clear()
    src = Source(names)
    tick()
    if start == 'first use':
        # nobody has created the data directory yet
        shutil.rmtree(os.environ['XDG_DATA_HOME'])
    elif start != 'no cache':
        got = procs.run(go(src))
        if got != src.expected():
            src.close()
            raise Violation('the first run returned %r instead of %r' % (got, src.expected()))
    if start == 'stale cache':
        tick()
        src.write('a.spold')
    tick()
    return src


def check_later(c, src, what):
    """Later runs succeed and return the current source, with and without a new cache."""
    for i in range(2):
        got = procs.run(go(src))
        c.step()
        c.expect(got == src.expected(), lambda: 'after %s, %s cached run returned %r instead of %r' % (
            what, ('the next', 'a second')[i], got, src.expected()))


def disturbed(kinds, points):
    def scenario(c):
        start = c.choose('start', STARTS)
        kind = c.choose('kind', kinds)
        what = []
        src = None
        own_cache()
        try:
            src = prepare(start, ('a.spold',))
            k = c.choose('at', range(points[start]))
            got = procs.disturb(go(src), kind, k)
            c.step()
            what.append('%s at %d' % (kind, k))
            if kind in ('kill', 'torn'):
                c.expect(isinstance(got, procs.Died) or got == src.expected(), lambda: 'the disturbed run returned %r' % (got,))
            else:
                c.expect(isinstance(got, procs.Failed) or got == src.expected(), lambda: 'the disturbed run returned %r instead of %r' % (got, src.expected()))
            then = c.choose('then', ('run', 'edit', 'same again'), dev=True)
            if then == 'edit':
                tick()
                src.write('a.spold')
                tick()
            elif then == 'same again':
                procs.disturb(go(src), kind, k)
            what.append(then)
            check_later(c, src, what)
            c.state((start, kind, k, then))
            c.outcome((start, kind, type(got).__name__, then))
        finally:
            if src:
                src.close()
    return scenario


def own_cache():
    """Each worker process has its own data directory."""
    d = os.path.join(os.environ['TMPDIR'], 'data-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.environ['XDG_DATA_HOME'] = d


def concurrent(starts, editing):
    def scenario(c):
        start = c.choose('start', starts)
        own_cache()
        src = None
        try:
            src = prepare(start, ('a.spold',))
            before = src.expected()
            extra = []
            if editing:
                def edit():
                    tick()
                    src.write('a.spold')
                    tick()
                extra.append(('edit', edit))
            got, trace = procs.interleave(c, [go(src)] * 2, extra)
            for i, g in enumerate(got):
                # a run sees a version which was there at some time during the run
                ok = [src.expected()]
                mine = [j for j, t in enumerate(trace) if t != 'edit' and t[0] == i]
                if editing and mine[0] < trace.index('edit'):
                    ok.append(before)
                c.expect(g in ok, lambda: 'run %d returned %r instead of %r; schedule %r' % (i, g, ok, trace))
            tick()
            check_later(c, src, 'schedule %r' % (trace,))
            c.state(tuple(trace))
            c.outcome((start, len(trace)))
        finally:
            if src:
                src.close()
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    own_cache()
    ops, size = {}, {}
    for s in STARTS:
        src = None
        try:
            src = prepare(s, ('a.spold',))
            names = procs.count(go(src))
            if not isinstance(names, list):
                names = []
            sizes = [os.path.getsize(f) for f in cache_files()] or [0]
        except Violation:
            names, sizes = [], [0]
        finally:
            if src:
                src.close()
        ops[s] = len(names) + 2
        size[s] = max(sizes) + 2 if s != 'fresh cache' else 2
    rep.add('crash points', explore('crash points', disturbed(('kill', 'interrupt', 'error'), ops), bound=1 if big else 0, sleepy=True),
            'every file operation (%s) x kill/KeyboardInterrupt/OSError; from no, stale and fresh cache, and without data directory' % ops)
    rep.add('torn writes', explore('torn writes', disturbed(('torn', 'full'), size), bound=1 if big else 0, sleepy=True),
            'every byte (%s) at which writing can stop: killed there, or no space left' % size)
    n = 3 if big else 2
    rep.add('two runs', explore('two runs', concurrent(STARTS if big else ('stale cache', 'fresh cache', 'first use'), False), bound=n, sleepy=True),
            'two runs, all schedules of file operations with <=%d preemptions' % n)
    rep.add('two runs and an edit', explore('two runs and an edit', concurrent(('no cache', 'fresh cache'), True), bound=n - 1, sleepy=True),
            'two runs and one edit, all schedules with <=%d preemptions' % (n - 1))
    rep.assume('processes end, the operating system does not: what was written before stays', 'edits are more than 15 ms away from the operations around them')
