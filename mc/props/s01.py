"""S01 -- the cache is transparent: runs see the current source files."""
import os

from ..engine import Skip, explore
from ..ref.check import Raised, call
from ..ref.source import Opens, Source, seen, text, tick

from ocelot.filesystem import get_cache_filepath_for_data_path
from ocelot.io import extract_directory

OPS = ('run', 'edit a', 'add or remove b', 'rename', 'restore older a', 'edit hidden', 'uncached run', 'other directory',
       'edit a while reading', 'edit b while reading', 'note')


def extract(c, src, spelling, use_cache=True, watch=None):
    path = src.path
    cwd = os.getcwd()
    try:
        if spelling == 'slash':
            path += os.sep
        elif spelling == 'relative':
            os.chdir(os.path.dirname(src.path))
            path = os.path.basename(src.path)
        elif spelling == 'dots':
            path = os.path.join(src.path, '..', os.path.basename(src.path))
        with (watch or Opens()) as w:
            got = call(c, extract_directory, path, use_cache, False)
    finally:
        os.chdir(cwd)
    c.expect(isinstance(got, list), lambda: repr(got))
    return got, w.names


def cached(src):
    fp = get_cache_filepath_for_data_path(src.path)
    if not os.path.exists(fp):
        return None
    with open(fp, 'rb') as f:
        return f.read(), os.stat(fp).st_mtime_ns


def coarsen(src):
    """A file system whose time stamps are whole seconds."""
    every = [src.path, get_cache_filepath_for_data_path(src.path)] + [src.fp(n) for n in src.files]
    for p in every:
        if os.path.exists(p):
            t = float(int(os.stat(p).st_mtime))
            os.utime(p, (t, t))


def histories(n, ops, coarse=False):
    def scenario(c):
        hidden = c.choose('start', ('a b', 'a hidden', 'empty'))
        src = Source({'a b': ['a.spold', 'b.SPOLD'], 'a hidden': ['a.spold', '.h.spold'], 'empty': []}[hidden])
        other = Source(['o.spold'])
        hist, clean = [], False
        tick()
        if coarse:
            coarsen(src)
        try:
            for i in range(n + 1):
                op = c.choose('step %d' % i, ops) if i < n else 'run'
                spelling = 'plain'
                if op == 'run':
                    spelling = c.choose('path', ('plain', 'slash', 'relative', 'dots'), dev=True)
                    got, names = extract(c, src, spelling)
                    c.expect(seen(got) == src.expected(), lambda: 'after %r the run returned %r instead of %r' % (hist, seen(got), src.expected()))
                    if clean and not coarse:
                        c.expect(not names, lambda: 'after %r unchanged files were read again: %r' % (hist, names))
                    clean = True
                    # a user may change what was returned
                    for d in got:
                        d['exchanges'][0]['amount'] = -1
                    del got[1:]
                elif op == 'uncached run':
                    # sees even what no time stamp tells
                    secret = 'a.spold' in src.files and c.flag('edited secretly', dev=True)
                    if secret:
                        fp, v = src.fp('a.spold'), src.files['a.spold']
                        st = os.stat(fp)
                        src.write('a.spold')
                        os.utime(fp, ns=(st.st_atime_ns, st.st_mtime_ns))
                    before = cached(src)
                    got, names = extract(c, src, spelling, False)
                    c.expect(seen(got) == src.expected(), lambda: 'after %r the uncached run returned %r' % (hist, seen(got)))
                    c.expect(cached(src) == before, lambda: 'after %r the uncached run changed the cache' % (hist,))
                    if secret:
                        with open(fp, 'wb') as f:
                            f.write(text('a.spold', v).encode('utf-8'))
                        os.utime(fp, ns=(st.st_atime_ns, st.st_mtime_ns))
                        src.files['a.spold'] = v
                        clean = False
                elif op == 'other directory':
                    got, names = extract(c, other, c.choose('path', ('plain', 'relative'), dev=True))
                    c.expect(seen(got) == other.expected(), lambda: 'other directory returned %r' % seen(got))
                    if c.flag('edit it', dev=True):
                        tick()
                        other.write('o.spold')
                elif op.endswith('while reading'):
                    name = {'a': 'a.spold', 'b': 'b.SPOLD'}[op[5]]
                    if name not in src.files:
                        raise Skip
                    src.write('x.spold')     # so that there is something to extract
                    k = c.choose('at file', (1, 2))

                    def action(i):
                        if i == k:
                            tick()
                            src.write(name)
                    tick()
                    got, names = extract(c, src, spelling, watch=Opens(action))
                    c.expect(sorted(d['filepath'] for d in got) == [p for p, _ in src.expected()], 'files are missing')
                    clean = False
                else:
                    clean = False
                    if op == 'edit a' and 'a.spold' in src.files:
                        src.write('a.spold')
                    elif op == 'add or remove b':
                        src.remove('b.SPOLD') if 'b.SPOLD' in src.files else src.write('b.SPOLD')
                    elif op == 'rename' and 'a.spold' in src.files:
                        src.rename('a.spold', 'c.spold')
                    elif op == 'restore older a' and 'a.spold' in src.files:
                        src.replace_older('a.spold')
                    elif op == 'edit hidden' and '.h.spold' in src.files:
                        src.write('.h.spold')
                    elif op == 'note':
                        src.write('note.txt')
                    else:
                        raise Skip
                hist.append(op)
                if coarse:
                    coarsen(src)
                c.state((tuple(hist), hidden))
                tick()
            c.outcome((hidden, tuple(sorted(src.files.items())), clean))
        finally:
            src.close()
            other.close()
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    n = 4 if big else 2
    rep.add('histories', explore('histories', histories(n, OPS), bound=1, sleepy=True), 'all histories of %d operations and a final run; <=1 unusual path spelling' % n)
    if big:
        rep.add('whole seconds', explore('whole seconds', histories(3, OPS, True), bound=0, sleepy=True), 'all histories of 3 operations where time stamps are whole seconds')
    else:
        short = ('run', 'edit a', 'add or remove b', 'restore older a', 'edit a while reading')
        rep.add('whole seconds', explore('whole seconds', histories(2, OPS[:8], True), bound=0, sleepy=True), 'all histories of 2 of 8 operations where time stamps are whole seconds')
        rep.add('longer histories', explore('longer histories', histories(3, short), bound=0, sleepy=True), 'all histories of 3 of the 5 main operations')
    rep.assume('source files are not changed within one tick of the file clock (15 ms) of the start of an extraction',
               'files are not edited in place with their time stamp set back')
