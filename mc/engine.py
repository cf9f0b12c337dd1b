"""Explicit-state / stateless exploration engine.

A *scenario* is an ordinary Python function ``scenario(c)`` that builds one
closed execution of the real Ocelot code.  Every source of nondeterminism in it
(input shape, operation order, environment answer, crash point, schedule) is
drawn from ``c.choose(label, options)``.  The explorer re-runs the scenario for
every sequence of answers, so one call to :func:`explore` covers the complete
choice tree below the stated bounds -- nothing is sampled.

``c.choose(..., dev=True)`` marks a *deviation point*: taking any option but
the first costs one unit of the deviation budget (``bound``), as in
context-bounded search.  Points without ``dev`` are always explored completely.

The scenario reports what it saw with

* ``c.state(obj)``     an abstract state that was visited (deduplicated),
* ``c.step()``         one transition: an invocation of the implementation,
* ``c.expect(ok, ..)`` / ``raise Violation`` for the oracle.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The oracle disagrees with the implementation."""

    def __init__(self, message, sig=None):
        super().__init__(message)
        self.message = message
        self.sig = sig


class Skip(Exception):
    """This combination of choices is outside the alphabet (not counted)."""


class NonDeterminism(Exception):
    """Replaying a prefix met different choice points: harness bug."""


class Timeout(BaseException):
    pass


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'replace')
    return hashlib.blake2b(obj, digest_size=8).digest()


class Chooser:
    def __init__(self, prefix=(), bound=None):
        self.prefix = list(prefix)
        self.bound = bound
        self.points = []          # (label, n_options, dev)
        self.choices = []
        self.shown = []           # (label, repr(option)) for replays
        self.spent = 0
        self.states = set()
        self.transitions = 0
        self.checks = 0
        self.outcomes = set()
        self.known = []           # (sig, text) known findings met

    # -- nondeterminism ------------------------------------------------
    def choose(self, label, options, dev=False):
        options = list(options)
        n = len(options)
        if not n:
            raise Skip(label)
        i = len(self.choices)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise NonDeterminism("choice %d (%s): %d of %d" % (i, label, k, n))
        else:
            k = 0
        if dev and k:
            self.spent += 1
        self.points.append((label, n, dev))
        self.choices.append(k)
        self.shown.append((label, _short(options[k])))
        return options[k]

    def flag(self, label, dev=False):
        return self.choose(label, (False, True), dev=dev)

    def permutation(self, label, items):
        """All orders of ``items`` (as successive picks)."""
        rest, out = list(items), []
        while len(rest) > 1:
            x = self.choose(label, list(range(len(rest))))
            out.append(rest.pop(x))
        return out + rest

    def subset(self, label, items):
        return [x for x in items if self.choose('%s:%s' % (label, _short(x)), (False, True))]

    # -- reporting -----------------------------------------------------
    def state(self, obj):
        self.states.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def expect(self, ok, message, sig=None):
        self.checks += 1
        if not ok:
            raise Violation(message() if callable(message) else message, sig)

    def known_finding(self, sig, text):
        self.known.append((sig, text))


def _short(x, limit=160):
    if callable(x) and hasattr(x, '__name__'):
        return x.__name__
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + '...'


class Result:
    FIELDS = ('executions', 'transitions', 'checks', 'skipped')

    def __init__(self):
        self.executions = self.transitions = self.checks = self.skipped = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []      # dicts
        self.known = {}           # sig -> (text, count)
        self.samples = []
        self.complete = True
        self.maxdepth = 0

    def merge(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.violations += other.violations
        for k, (t, n) in other.known.items():
            self.known[k] = (t, self.known.get(k, (t, 0))[1] + n)
        self.samples = (self.samples + other.samples)[:6]
        self.complete = self.complete and other.complete
        self.maxdepth = max(self.maxdepth, other.maxdepth)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints (Python level)."""
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def run_once(scenario, prefix, bound=None, limit=60):
    """Run one execution; returns (chooser, violation dict or None, skipped)."""
    c = Chooser(prefix, bound)
    alarm = hasattr(signal, 'SIGALRM') and limit
    if alarm:
        def boom(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, boom)
        signal.setitimer(signal.ITIMER_REAL, limit)
    viol, skipped = None, False
    try:
        with quiet():
            scenario(c)
    except Skip:
        skipped = True
    except NonDeterminism as e:
        viol = {'message': 'the same input behaved differently on replay: %s' % e, 'sig': None}
    except Violation as v:
        viol = {'message': v.message, 'sig': v.sig}
    except Timeout:
        viol = {'message': 'execution did not terminate within %s s' % limit, 'sig': None}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        viol = {'message': 'unexpected %s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc(limit=-6)), 'sig': None}
    finally:
        if alarm:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    if viol is not None:
        viol['choices'] = list(c.choices)
        viol['shown'] = list(c.shown)
    return c, viol, skipped


def successors(c, start):
    """Untried alternatives of a finished execution, at depth >= start."""
    spent = 0
    costs = []
    for (label, n, dev), k in zip(c.points, c.choices):
        costs.append(spent)
        if dev and k:
            spent += 1
    for i in range(len(c.points) - 1, start - 1, -1):
        label, n, dev = c.points[i]
        if dev and c.bound is not None and costs[i] + 1 > c.bound:
            continue
        for alt in range(n - 1, 0, -1):
            yield c.choices[:i] + [alt]


MAXVIOL = 40


def _explore(scenario, roots, bound, deadline, res, limit, slice_=None):
    """Depth-first below ``roots``; returns prefixes left when the slice is over."""
    stack = [list(r) for r in roots]
    stop = time.time() + slice_ if slice_ else None
    while stack:
        now = time.time()
        if deadline and now > deadline:
            res.complete = False
            return []
        if stop and now > stop:
            return stack
        prefix = stack.pop()
        c, viol, skipped = run_once(scenario, prefix, bound, limit)
        record(res, c, viol, skipped)
        if len(res.violations) >= MAXVIOL:
            res.complete = False
            return []
        stack.extend(successors(c, len(prefix)))
    return []


def record(res, c, viol, skipped):
    if skipped:
        res.skipped += 1
        return
    res.executions += 1
    res.transitions += c.transitions
    res.checks += c.checks
    res.states |= c.states
    res.outcomes |= c.outcomes
    res.maxdepth = max(res.maxdepth, len(c.choices))
    for sig, text in c.known:
        t, n = res.known.get(sig, (text, 0))
        res.known[sig] = (t, n + 1)
    if viol:
        res.violations.append(viol)
    if len(res.samples) < 3 and (res.executions in (1, 7, 50)):
        res.samples.append({'choices': ['%s=%s' % x for x in c.shown]})


def _worker(args):
    scenario, roots, bound, deadline, limit = args
    res = Result()
    left = _explore(_SCENARIOS[scenario], roots, bound, deadline, res, limit, slice_=0.7)
    return res, left


_SCENARIOS = {}
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or (os.cpu_count() or 2)
# wall-clock ceiling of one exploration; reaching it is reported as exhaustive=false
BUDGET = {'quick': 500, 'thorough': 4 * 3600}
TIER = 'quick'


def explore(name, scenario, bound=None, budget=None, limit=60, parallel=True, sleepy=False):
    """Explore the whole choice tree of ``scenario``.  Returns a Result."""
    deadline = time.time() + (budget or BUDGET[TIER])
    res = Result()
    res.name = name
    _SCENARIOS[name] = scenario
    # Determinism: the default execution replayed twice must look the same.
    a, va, _ = run_once(scenario, [], bound, limit)
    b, vb, _ = run_once(scenario, [], bound, limit)
    if (a.points, a.choices, a.states, a.outcomes) != (b.points, b.choices, b.states, b.outcomes) and not (va or vb):
        res.violations.append({
            'message': '%s: replaying the default execution gave different observations' % name,
            'sig': None, 'choices': [], 'shown': []})
    # Breadth-first until there are enough independent subtrees.
    frontier = [[]]
    workers = 4 * WORKERS if sleepy else WORKERS      # sleepy: executions mostly wait
    target = (WORKERS if sleepy else 24 * WORKERS) if parallel and WORKERS > 1 else 1
    leaves = []
    while frontier and len(frontier) < target:
        prefix = frontier.pop(0)
        c, viol, skipped = run_once(scenario, prefix, bound, limit)
        record(res, c, viol, skipped)
        nxt = list(successors(c, len(prefix)))
        frontier.extend(nxt)
        if deadline and time.time() > deadline:
            res.complete = False
            break
        if len(res.violations) >= MAXVIOL:
            res.complete = False
            return res
    if not frontier:
        return res
    if not parallel or WORKERS < 2:
        _explore(scenario, frontier, bound, deadline, res, limit)
        return res
    ctx = multiprocessing.get_context('fork')
    queue, pending = list(frontier), []
    with ctx.Pool(workers) as pool:
        while queue or pending:
            while queue and len(pending) < 2 * workers:
                # hand out shallow prefixes first: they hold the biggest subtrees
                n = max(1, min(8, len(queue) // (4 * workers)))
                job, queue = queue[:n], queue[n:]
                pending.append(pool.apply_async(_worker, ((name, job, bound, deadline, limit),)))
            done = [p for p in pending if p.ready()]
            if time.time() > deadline + limit + 10:
                # a worker died or hangs
                res.complete = False
                pool.terminate()
                break
            if not done:
                pending[0].wait(0.02)
                continue
            for p in done:
                pending.remove(p)
                part, left = p.get()
                res.merge(part)
                queue.extend(left)
            queue.sort(key=len)
            if len(res.violations) >= MAXVIOL:
                res.complete = False
                pool.terminate()
                break
    return res


def bfs(name, initial, events, apply, invariant, canon, maxdepth, budget=None):
    """Explicit-state breadth-first search where a state is the event history.

    ``initial()`` builds a fresh system; ``events(sys)`` lists enabled events;
    ``apply(sys, ev)`` performs one on the real code; ``invariant(sys, hist)``
    raises Violation; ``canon(sys)`` is the deduplication key.
    """
    res = Result()
    res.name = name
    deadline = time.time() + budget if budget else None

    def build(hist):
        s = initial()
        for ev in hist:
            apply(s, ev)
        return s

    frontier = [()]
    seen = set()
    with quiet():
        s = build(())
        seen.add(digest(canon(s)))
    while frontier:
        nxt = []
        for hist in frontier:
            if deadline and time.time() > deadline:
                res.complete = False
                frontier = []
                nxt = []
                break
            with quiet():
                s = build(hist)
                evs = list(events(s))
            for ev in evs:
                h = hist + (ev,)
                viol = None
                with quiet():
                    try:
                        s = build(hist)
                        apply(s, ev)
                        invariant(s, h)
                        k = digest(canon(s))
                    except Violation as v:
                        viol = {'message': v.message, 'sig': v.sig}
                    except Exception as e:
                        viol = {'message': 'unexpected %s: %s\n%s' % (
                            type(e).__name__, e, traceback.format_exc(limit=-6)), 'sig': None}
                res.transitions += 1
                res.executions += 1
                res.maxdepth = max(res.maxdepth, len(h))
                if viol:
                    viol['choices'] = [repr(x) for x in h]
                    viol['shown'] = [('event', repr(x)) for x in h]
                    res.violations.append(viol)
                    if len(res.violations) >= MAXVIOL:
                        res.complete = False
                        res.states = seen
                        return res
                    continue
                if k not in seen:
                    seen.add(k)
                    if len(h) < maxdepth:
                        nxt.append(h)
                if len(res.samples) < 3:
                    res.samples.append({'history': [repr(x) for x in h]})
        frontier = nxt
    res.states = seen
    return res
