"""S03 -- model runs do not touch each other's output, and interrupted ones leave nothing."""
import logging
import os
import pickle

from ..engine import Skip, explore
from ..ref import procs, runs
from ..ref.check import Raised, call

from ocelot import errors
from ocelot.model import system_model

report = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')


class Own(Exception):
    pass


ENDS = {'fine': None, 'error': Own, 'interrupt': KeyboardInterrupt, 'exit': SystemExit}
ERRORS = (Own, AssertionError, ValueError, KeyError, OSError, RuntimeError, StopIteration, MemoryError, GeneratorExit,
          ImportError, TypeError) + tuple(sorted((e for e in vars(errors).values() if isinstance(e, type)), key=lambda e: e.__name__))


def steps(run, n, end, at):
    end = ENDS.get(end, end)

    def make(i):
        def f(data):
            for d in data:
                d['trace'] = d.get('trace', ()) + ('%s-%d' % (run, i),)
            report.info({'type': 'list element', 'data': 'entry-%s-%d' % (run, i)})
            detailed.info({'ds': data[0], 'message': 'detail-%s-%d' % (run, i), 'function': 'f'})
            if end and i == at:
                raise end()
            return data
        f.__name__ = 'f%d' % i
        return f
    return [make(i) for i in range(n)]


def go(run, n, end=None, at=0, **kw):
    return system_model(runs.source().path, steps(run, n, end, at), False, True, **kw)


def check_complete(c, place, src, out, data, run, n, kw):
    """A finished run has its own data, logs and report."""
    d = os.path.join(place.path, out.report_id)
    c.expect(os.path.realpath(out.directory) == os.path.realpath(d) and os.path.isdir(d), lambda: 'output is in %s' % out.directory)
    want = [(os.path.basename(f), tuple('%s-%d' % (run, i) for i in range(n))) for f, _ in src.expected()]
    c.expect(runs.brief(data) == want, lambda: 'run gave %r instead of %r' % (runs.brief(data), want))
    saved = runs.intermediate(d)
    c.expect('final-results' in saved and saved['final-results'] == data, 'the final results saved are not the data returned')
    log = [x['data'] for x in runs.log_lines(d) if x['type'] == 'list element']
    c.expect(log == ['entry-%s-%d' % (run, i) for i in range(n)], lambda: 'log of run %s: %r' % (run, log))
    log = [x['message'] for x in runs.log_lines(d, 'detailed.log.json')]
    c.expect(log == ['detail-%s-%d' % (run, i) for i in range(n)], lambda: 'detailed log of run %s: %r' % (run, log))
    with open(os.path.join(d, 'report.html'), encoding='utf-8') as f:
        html = f.read()
    c.expect(out.report_id in html and html.count('entry-') == n and all('entry-%s-%d' % (run, i) in html for i in range(n)), 'report of run %s' % run)
    if kw.get('follow'):
        c.expect(sorted(runs.followed(d)) == list(range(n)), lambda: 'followed %r' % sorted(runs.followed(d)))


def sequences(length):
    def scenario(c):
        default = c.choose('output', ('OCELOT_OUTPUT', 'usual place'), dev=True) == 'usual place'
        src = runs.source()
        place = runs.Place(default)
        hist = []
        try:
            if c.flag('other files', dev=True):
                os.mkdir(os.path.join(place.path, 'mine'))
                with open(os.path.join(place.path, 'mine', 'x'), 'w') as f:
                    f.write('x')
            kept = {d: place.content(d) for d in place.dirs()}
            returned = []
            for k in range(length):
                run = 'ABCD'[k]
                end = c.choose('run %d' % k, tuple(ENDS))
                n = c.choose('functions', (2, 1, 3), dev=True)
                at = c.choose('at', list(range(n))) if end != 'fine' else 0
                kw = c.choose('options', ({}, {'follow': 'a.spold'}, {'save_strategy': 1}), dev=True)
                kind = ENDS[end]
                if end == 'error':
                    kind = c.choose('class', ERRORS, dev=True)
                hist.append((end, at, n))
                c.step()
                try:
                    got = go(run, n, kind, at, **kw)
                except BaseException as e:
                    got = e
                new = [d for d in place.dirs() if d not in kept]
                for d, content in kept.items():
                    c.expect(d in place.dirs() and place.content(d) == content, lambda: 'run %r changed the output of an earlier one' % (hist,))
                if end == 'fine':
                    c.expect(isinstance(got, tuple), lambda: 'run failed: %r' % (got,))
                    c.expect(new == [got[0].report_id], lambda: 'new directories %r' % new)
                    check_complete(c, place, src, got[0], got[1], run, n, kw)
                    returned.append(got)
                elif end == 'interrupt':
                    c.expect(isinstance(got, KeyboardInterrupt) or isinstance(got, SystemExit) and got.code not in (None, 0), lambda: 'interrupted run ended with %r' % (got,))
                    c.expect(not new, lambda: 'interrupted run left %r' % new)
                else:
                    c.expect(type(got) is kind, lambda: 'the error became %r' % (got,))
                    c.expect(len(new) <= 1, lambda: 'failed run left %r' % new)
                kept = {d: place.content(d) for d in place.dirs()}
                c.state(tuple(hist))
            for out, data in returned:
                saved = runs.intermediate(out.directory)
                c.expect(saved['final-results'] == data, 'data of an earlier run have changed')
            c.outcome((tuple(hist), len(kept)))
        finally:
            place.close()
    return scenario


def points(ops):
    """Stopped at any file operation of the second run."""
    def scenario(c):
        kind = c.choose('kind', ('interrupt', 'kill', 'error'))
        k = c.choose('at', ops)
        src = runs.source()
        place = runs.Place()
        try:
            first = procs.run(lambda: returned(go('A', 2)))
            c.expect(isinstance(first, tuple), lambda: 'first run: %r' % (first,))
            kept = {d: place.content(d) for d in place.dirs()}
            got = procs.disturb(lambda: returned(go('B', 2, follow='a.spold')), kind, k)
            new = [d for d in place.dirs() if d not in kept]
            what = '%s at %d' % (kind, k)
            for d, content in kept.items():
                c.expect(d in place.dirs() and place.content(d) == content, lambda: '%s changed the output of an earlier run' % what)
            c.expect(len(new) <= 1, lambda: '%s left %r' % (what, new))
            if isinstance(got, tuple):
                # nothing came of it (or the usual place was taken instead), or the run had ended
                c.expect(new in ([got[0]], []), lambda: '%s: new directories %r of %r' % (what, new, got))
                if kind != 'error':
                    check_brief(c, src, got, 'B')
            elif kind == 'interrupt':
                c.expect(isinstance(got, procs.Failed), lambda: '%s: %r' % (what, got))
                left = place.content(new[0]) if new else {}
                c.expect(not left, lambda: '%s left %r' % (what, sorted(left)))
            # and the next one works
            again = procs.run(lambda: returned(go('C', 2)))
            c.expect(isinstance(again, tuple), lambda: 'after %s: %r' % (what, again))
            check_brief(c, src, again, 'C')
            for d, content in kept.items():
                c.expect(d in place.dirs() and place.content(d) == content, lambda: 'the run after %s changed the output of an earlier one' % what)
            c.state((kind, k))
            c.outcome((kind, type(got).__name__, bool(new)))
        finally:
            place.close()
    return scenario


def returned(got):
    return got[0].report_id, runs.brief(got[1])


def check_brief(c, src, got, run):
    want = [(os.path.basename(f), tuple('%s-%d' % (run, i) for i in range(2))) for f, _ in src.expected()]
    c.expect(got[1] == want, lambda: 'run gave %r instead of %r' % (got[1], want))


def run(rep, tier):
    big = tier == 'thorough'
    runs.source()
    n = 3 if big else 2
    rep.add('sequences', explore('sequences', sequences(n), bound=1), 'all sequences of %d runs in one process, each fine or stopped by error, exit or interrupt at any function; <=1 deviation' % n)
    if not big:
        rep.add('longer sequences', explore('longer sequences', sequences(3), bound=0), 'all sequences of 3 runs, no deviations')
    place = runs.Place()
    try:
        names = procs.count(lambda: returned(go('B', 2, follow='a.spold')))
        ops = len(names) + 2 if isinstance(names, list) else 1
    finally:
        place.close()
    at = list(range(ops))
    if not big:
        # of the copied report files, only some
        at = [k for k in at if k < 160 or k >= ops - 60]
    rep.add('stopped at any point', explore('stopped at any point', points(at), sleepy=True), 'the second of three runs stopped at %d of %d file operations by interrupt, kill or error' % (len(at), ops))
    rep.assume('there is no second interrupt while the output of the first interrupted run is deleted')
