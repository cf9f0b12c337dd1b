"""S05 -- cleaning up deletes the model runs older than one week, and nothing else."""
import os
import shutil
import tempfile
import time
import uuid

from ..engine import Skip, explore
from ..ref import runs
from ..ref.check import Raised, call
from ..ref.clock import Stopped

from ocelot.filesystem import OutputDir
from ocelot.io import cleanup_data_directory

WEEK = 7 * 24 * 60 * 60
TICK = 0.02
THINGS = ('run', 'run with files', 'failed run', 'other directory', 'file', 'link', 'file named like a run', 'nearly a run')


def fill(d, levels):
    for name in ('report.html', '0.f.pickle'):
        with open(os.path.join(d, name), 'w') as f:
            f.write(name)
    if levels:
        os.mkdir(os.path.join(d, 'assets'))
        fill(os.path.join(d, 'assets'), levels - 1)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = 'dir'
        for x in files:
            with open(os.path.join(base, x)) as f:
                out[os.path.relpath(os.path.join(base, x), d)] = f.read()
    return out


def make(kind, place, outside, i):
    """Its name, and whether it is a model run."""
    if kind in ('run', 'run with files', 'failed run'):
        out = OutputDir(follow=kind == 'run with files')
        if kind == 'run with files':
            fill(out.directory, 2)
        elif kind == 'run':
            fill(out.directory, 0)
        return os.path.basename(out.directory), True
    name = ('thing %d', 'results-%d')[i % 2] % i
    if 'named' in kind:
        name = uuid.uuid4().hex
    elif 'nearly' in kind:
        name = uuid.uuid4().hex + ('0', '-old')[i % 2]
    path = os.path.join(place.path, name)
    if kind in ('other directory', 'nearly a run'):
        os.mkdir(path)
        fill(path, 1)
    elif 'file' in kind:
        with open(path, 'w') as f:
            f.write('x')
    else:
        os.symlink(outside, path)
    return name, False


def cleaned(n):
    def scenario(c):
        default = c.choose('output', ('OCELOT_OUTPUT', 'usual place'), dev=True) == 'usual place'
        place = runs.Place(default)
        outside = tempfile.mkdtemp()
        fill(outside, 1)
        outer = tree(outside)
        try:
            things, times = [], [time.time()]
            for i in range(n):
                kind = c.choose('thing %d' % i, THINGS)
                time.sleep(TICK)
                things.append((kind,) + make(kind, place, outside, i))
                time.sleep(TICK)
                times.append(time.time())
            deleted = set()
            shown = [k for k, _, _ in things]
            first = c.choose('week after', list(range(n + 1)) + ['a day', 'eight days', 'before all'])
            for step, cut in enumerate((first,) + ((c.choose('again after', ('all', first)),) if n < 3 else ())):
                before = tree(place.path)
                t = {'a day': times[-1] + 86400, 'eight days': times[-1] + 8 * 86400, 'all': times[-1] + WEEK, 'before all': times[0] + WEEK - 3600}.get(cut)
                if t is None:
                    t = times[cut] + WEEK
                old = len(things) if cut in ('eight days', 'all') else cut if isinstance(cut, int) else 0
                with Stopped(t):
                    got = call(c, cleanup_data_directory)
                c.expect(not isinstance(got, Raised), lambda: 'failed: %r' % got)
                deleted |= {name for k, name, is_run in things[:old] if is_run}
                want = sorted(name for _, name, _ in things if name not in deleted)
                c.expect(place.dirs() == want, lambda: 'after %r, %r: %r are left instead of %r' % (shown, cut, place.dirs(), want))
                after = tree(place.path)
                want = {k: v for k, v in before.items() if k.split(os.sep)[0] not in deleted}
                c.expect(after == want, lambda: 'contents have changed: %r' % sorted(set(before) ^ set(after)))
                c.expect(tree(outside) == outer, 'a linked directory has changed')
            c.state((tuple(shown), first))
            c.outcome((tuple(shown), len(deleted)))
        finally:
            place.close()
            shutil.rmtree(outside)
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    for n in (0, 1, 2, 3) if big else (0, 1, 2):
        rep.add('%d things' % n, explore('%d things' % n, cleaned(n), bound=1, sleepy=True), 'all histories of %d things made, and all times relative to one week after them' % n)
    if not big:
        rep.add('3 things', explore('3 things', cleaned(3), bound=0, sleepy=True), 'all histories of 3 things, usual output directory')
    rep.assume('the age of a run is that of its directory; runs are not changed after they have ended')
