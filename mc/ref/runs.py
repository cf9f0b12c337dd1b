"""Complete model runs: a source directory, an output directory and what lies in it."""
import glob
import hashlib
import json
import logging
import multiprocessing
import os
import pickle
import shutil
import tempfile

from .source import Source, tick

_SOURCE = {}


def source():
    """One cached source directory with two datasets, shared by all executions."""
    from ocelot.io import extract_directory
    if not _SOURCE:
        src = Source(['a.spold', 'b.spold'])
        tick()
        extract_directory(src.path, True, False)
        tick()
        _SOURCE['src'] = src
    return _SOURCE['src']


def free():
    """Let a worker of the explorer have children."""
    multiprocessing.current_process()._config['daemon'] = False


class Place:
    """An output directory of its own."""

    def __init__(self, default=False):
        free()
        self.root = tempfile.mkdtemp()
        self.old = {k: os.environ.get(k) for k in ('OCELOT_OUTPUT', 'XDG_DATA_HOME')}
        self.default = default
        if default:
            # the usual place, below the data directory
            from ocelot.filesystem import get_cache_directory
            cache = get_cache_directory()
            os.environ.pop('OCELOT_OUTPUT', None)
            os.environ['XDG_DATA_HOME'] = self.root
            mine = get_cache_directory()
            os.rmdir(mine)
            shutil.copytree(cache, mine)
            self.path = os.path.join(os.path.dirname(mine), 'model-runs')
            os.makedirs(self.path, exist_ok=True)
        else:
            self.path = os.path.join(self.root, 'output')
            os.mkdir(self.path)
            os.environ['OCELOT_OUTPUT'] = self.path

    def close(self):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for name in ('ocelot', 'ocelot-detailed'):
            log = logging.getLogger(name)
            for h in list(log.handlers):
                log.removeHandler(h)
                h.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def dirs(self):
        return sorted(os.listdir(self.path))

    def content(self, name):
        """File name -> digest, of one run."""
        out = {}
        base = os.path.join(self.path, name)
        for d, _, files in os.walk(base):
            for f in files:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, base)] = hashlib.blake2b(fh.read(), digest_size=8).hexdigest()
        return out


def log_lines(directory, name='report.log.json'):
    with open(os.path.join(directory, name), encoding='utf-8') as f:
        return [json.loads(line) for line in f]


def intermediate(directory):
    """index -> data, of the saved intermediate results; 'final-results' too."""
    out = {}
    for p in glob.glob(os.path.join(directory, '*.pickle')):
        with open(p, 'rb') as f:
            key = os.path.basename(p).split('.')[0]
            assert key not in out, key
            out[key] = pickle.load(f)
    return out


def followed(directory):
    """The records about the followed dataset, by index."""
    out = {}
    for p in glob.glob(os.path.join(directory, 'follow', '*')):
        with open(p, 'rb') as f:
            rec = pickle.load(f)
        assert rec['index'] not in out, rec['index']
        out[rec['index']] = rec
    return out


def brief(data):
    """What the harness functions do to datasets."""
    return [(os.path.basename(d['filepath']), tuple(d.get('trace', ()))) for d in data]
