"""Child processes under control: counted operations, crashes, faults, torn writes, schedules.

Operations are what the interpreter does to files (calls of C functions on
files, directories and picklers, made by any Python code), seen through
``sys.setprofile``; nothing depends on which functions the code under test uses.
"""
import os
import pickle
import resource
import signal
import struct
import sys
import traceback

NAMES = {'open', 'stat', 'lstat', 'listdir', 'scandir', 'access', 'mkdir', 'rmdir', 'replace', 'rename', 'remove',
         'unlink', 'utime', 'write', 'writelines', 'close', 'dump', 'dumps', 'load', 'loads', 'read', 'readinto', 'flush', 'fsync',
         'truncate', 'link', 'symlink', 'sendfile', 'fdopen', 'copy_file_range'}
AFTER = {'open', 'dump', 'write', 'writelines', 'mkdir', 'replace', 'rename'}
MODULES = {'posix', 'io', '_io', '_pickle', 'pickle'}


def operation(arg):
    name = getattr(arg, '__name__', None)
    if name not in NAMES:
        return None
    mod = getattr(arg, '__module__', None)
    if mod is None:
        mod = type(getattr(arg, '__self__', None)).__module__
    return name if mod in MODULES else None


def watch(on_op):
    """Call ``on_op(name)`` before each file operation, and after those that change something."""
    def prof(frame, event, arg):
        if event == 'c_call' or event == 'c_return':
            name = operation(arg)
            if name and (event == 'c_call' or name in AFTER):
                on_op(name if event == 'c_call' else name + ' done')
    sys.setprofile(prof)


def unwatch():
    sys.setprofile(None)


class Died:
    """The child did not return anything."""

    def __init__(self, status):
        self.status = status

    def __repr__(self):
        return 'Died(%r)' % self.status


class Failed:
    """The child raised something."""

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def __repr__(self):
        return 'Failed(%s)' % self.text


def _write(fd, data):
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    out = []
    while True:
        x = os.read(fd, 1 << 16)
        if not x:
            return b''.join(out)
        out.append(x)


def _child(w, function, before):
    code = 0
    try:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        if before:
            before()
        try:
            res = function()
        finally:
            unwatch()
            resource.setrlimit(resource.RLIMIT_FSIZE, (-1, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    except BaseException as e:
        unwatch()
        res = Failed(type(e).__name__, ''.join(traceback.format_exception(e, limit=-3)))
    try:
        _write(w, pickle.dumps(res))
    except BaseException:
        code = 3
    os._exit(code)


def run(function, before=None):
    """Run in a forked child; the result, Failed or Died."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        _child(w, function, before)
    os.close(w)
    out = _read(r)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return pickle.loads(out) if out else Died(status)


def count(function):
    """How many operations there are (and their names)."""
    def go():
        names = []
        watch(names.append)
        try:
            function()
        finally:
            unwatch()
        return names
    return run(go)


def disturb(function, kind, k):
    """Run with a crash or a fault at operation ``k``, or with files limited to ``k`` bytes."""
    def before():
        n = [0]

        def on_op(name):
            n[0] += 1
            if n[0] == k + 1:
                if kind == 'kill':
                    os._exit(9)
                unwatch()
                raise {'interrupt': KeyboardInterrupt, 'error': OSError}[kind]
        if kind in ('kill', 'interrupt', 'error'):
            watch(on_op)
        else:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kind == 'torn' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    return run(function, before)


class Controlled:
    """A child that waits for permission before every operation."""

    def __init__(self, function):
        r, self.result = os.pipe()
        self.r = r
        child_r, self.go = os.pipe()
        self.at, child_w = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            for fd in (r, self.go, self.at):
                os.close(fd)

            def on_op(name):
                os.write(child_w, struct.pack('24s', name.encode()))
                if not os.read(child_r, 1):
                    os._exit(9)

            def before():
                on_op('start')
                watch(on_op)
            w = self.result
            _child(w, function, before)
        for fd in (self.result, child_r, child_w):
            os.close(fd)
        self.done = False
        self.value = None
        self.next()

    def next(self):
        """Wait until the next operation (or the end)."""
        x = b''
        while len(x) < 24:
            y = os.read(self.at, 24 - len(x))
            if not y:
                break
            x += y
        if x:
            self.op = x.rstrip(b'\0').decode()
        else:
            out = _read(self.r)
            _, status = os.waitpid(self.pid, 0)
            self.value = pickle.loads(out) if out else Died(status)
            self.done, self.op = True, None
            for fd in (self.r, self.go, self.at):
                os.close(fd)
            self.pid = None

    def step(self):
        os.write(self.go, b'x')
        self.next()

    def kill(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            for fd in (self.r, self.go, self.at):
                os.close(fd)
            self.pid = None


def interleave(c, functions, extra=()):
    """Run functions in parallel, one operation at a time; which one goes on is a choice.

    Switching away from one that could go on costs a deviation.  ``extra``
    are (name, function) of the environment, each run once, at any point."""
    procs, left = [], []
    try:
        for f in functions:
            procs.append(Controlled(f))
            # pipes of older children stay open in younger ones: close on exec is not enough
        left = list(extra)
        trace, current = [], None
        while not all(p.done for p in procs):
            able = [i for i, p in enumerate(procs) if not p.done]
            if current in able:
                able.remove(current)
                options = [current] + able
            else:
                options = able
            options = options + [n for n, _ in left]
            # when the last one ended, who comes next is not a preemption
            pick = c.choose('next', options, dev=current in options[:1]) if len(options) > 1 else options[0]
            c.step()
            if isinstance(pick, str):
                [f for n, f in left if n == pick][0]()
                left = [(n, f) for n, f in left if n != pick]
                trace.append(pick)
                continue
            trace.append((pick, procs[pick].op))
            procs[pick].step()
            current = pick
        for n, f in left:
            f()
            trace.append(n)
        return [p.value for p in procs], trace
    finally:
        for p in procs:
            p.kill()
