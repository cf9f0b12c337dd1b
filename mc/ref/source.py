"""Source directories with tiny ecospold2 files whose content is a number."""
import os
import shutil
import sys
import tempfile
import time

from . import spold

TICK = 0.015        # more than the resolution of file time stamps


def text(name, value):
    return spold.document([spold.activity('id-' + name, name, flows=[
        spold.exchange('intermediateExchange', 'e-' + name, 'product of ' + name, str(value), 'output', '0', volume='5')])])


class Source:
    """A directory of files, and what a fresh extraction has to return for it."""

    def __init__(self, files, parent=None):
        # all sources have the same folder name, in different parents
        self.parent = tempfile.mkdtemp(dir=parent)
        self.path = os.path.join(self.parent, 'datasets')
        os.mkdir(self.path)
        self.files = {}
        self.version = 0
        for f in files:
            self.write(f)

    def close(self):
        shutil.rmtree(self.parent, ignore_errors=True)

    def fp(self, name):
        return os.path.join(self.path, name)

    def next(self):
        self.version += 1
        return self.version

    def write(self, name):
        v = self.next()
        with open(self.fp(name), 'wb') as f:
            f.write(text(name, v).encode('utf-8'))
        self.files[name] = v

    def replace_older(self, name):
        """Move an older file over this one (as in restoring a backup)."""
        v = self.next()
        old = self.fp(name) + '.bak'
        with open(old, 'wb') as f:
            f.write(text(name, v).encode('utf-8'))
        os.utime(old, (1000000000, 1000000000))
        os.replace(old, self.fp(name))
        self.files[name] = v

    def remove(self, name):
        os.remove(self.fp(name))
        del self.files[name]

    def rename(self, a, b):
        os.rename(self.fp(a), self.fp(b))
        self.files[b] = self.files.pop(a)

    def expected(self):
        return sorted((self.fp(n), float(v)) for n, v in self.files.items() if n.lower().endswith('.spold'))


def seen(data):
    """What datasets say about the files they come from."""
    return sorted((d['filepath'], d['exchanges'][0]['amount']) for d in data)


class Opens:
    """Watches which source files are opened (and can act at that point)."""
    current = None
    installed = False

    def __init__(self, action=None):
        self.names = []
        self.action = action

    @classmethod
    def install(cls):
        if cls.installed:
            return
        cls.installed = True

        def hook(event, args):
            me = cls.current
            if me is None or event != 'open':
                return
            path, mode = args[0], args[1]
            if isinstance(path, str) and path.lower().endswith('.spold') and not (mode and set(mode) & set('wax+')):
                cls.current = None
                try:
                    me.names.append(os.path.basename(path))
                    if me.action:
                        me.action(len(me.names))
                finally:
                    cls.current = me
        sys.addaudithook(hook)

    def __enter__(self):
        self.install()
        Opens.current = self
        return self

    def __exit__(self, *a):
        Opens.current = None


def tick():
    time.sleep(TICK)
