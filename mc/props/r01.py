"""R01 -- a model run applies each function once, in order, however the configuration is put together."""
import functools
import os

from ..engine import Skip, explore
from ..ref import runs
from ..ref.check import Raised, call

from ocelot import configuration
from ocelot.collection import Collection
from ocelot.model import system_model
from ocelot.transformations.utils import single_input
from ocelot.utils import get_function_meta
from ocelot.wrapper import TransformationWrapper

KINDS = ('plain', 'partial', 'per dataset', 'filtered', 'single input', 'new list')
# what a function does: (filepath, trace) list -> the same
DEEDS = {
    'mark': lambda data, t: [(f, tr + (t,)) for f, tr in data],
    'split': lambda data, t: [x for f, tr in data for x in ((f, tr + (t + '1',)), (f, tr + (t + '2',)))],
    'drop first': lambda data, t: [(f, tr + (t,)) for f, tr in data[1:]],
    'drop all': lambda data, t: [],
}


def mark(d, tag):
    return dict(d, trace=d.get('trace', ()) + (tag,))


def function(kind, deed, tag):
    """A transformation function of that kind, and its model."""
    def one(ds):
        if deed == 'split':
            return [mark(ds, tag + '1'), mark(ds, tag + '2')]
        if deed == 'drop all':
            return []
        ds['trace'] = ds.get('trace', ()) + (tag,)
        return [ds]

    def all_(data):
        if deed == 'drop first':
            data = data[1:]
        new = [x for ds in data for x in one(ds)]
        if kind == 'new list':
            return new
        data[:] = new
        return data
    model = functools.partial(DEEDS[deed], t=tag)
    if kind in ('plain', 'new list'):
        all_.__name__ = 'f' + tag
        return all_, model
    if kind == 'partial':
        def curried(data, unused, unused2=None):
            return all_(data)
        curried.__name__ = 'f' + tag
        return functools.partial(curried, unused=1), model
    if deed == 'drop first':
        raise Skip
    one.__name__ = 'f' + tag
    if kind == 'single input':
        return single_input(one), model
    if kind == 'per dataset':
        return TransformationWrapper(one), model

    def only_b(data):
        return [x for f, tr in data for x in (model([(f, tr)]) if f == 'b.spold' else [(f, tr)])]
    return TransformationWrapper(one, lambda ds: os.path.basename(ds['filepath']) == 'b.spold'), only_b


SHAPES = {
    0: ((('list', ('coll',)),), ),
    1: (('list', 0), ('coll', 0), ('list', ('coll', 0)), ('list', ('list', 0)), ('coll', ('coll', 0)), ('list', ('tuple', 0)), ('coll', ('list', ('coll',), 0))),
    2: (('list', 0, 1), ('coll', 0, 1), ('list', ('coll', 0), 1), ('list', 0, ('list', 1)), ('list', ('coll', 0, 1)), ('coll', ('coll', 0), 1),
        ('coll', 0, ('tuple', ('coll', 1)))),
    3: (('list', 0, 1, 2), ('coll', 0, 1, 2), ('list', 0, ('coll', 1, 2)), ('list', ('coll', 0, 1), 2), ('list', ('coll', ('coll', 0), 1), ('list', 2)),
        ('coll', ('list', 0, ('coll', 1)), ('coll', 2)), ('list', ('list', ('list', 0), 1), 2)),
}


def build(shape, functions):
    if isinstance(shape, int):
        return functions[shape]
    kids = [build(s, functions) for s in shape[1:]]
    return {'list': list, 'tuple': tuple}[shape[0]](kids) if shape[0] != 'coll' else Collection('collection', *kids)


def models(n):
    def scenario(c):
        shape = c.choose('shape', SHAPES[n])
        fs, ms = [], []
        for i in range(n):
            kind = c.choose('kind', KINDS, dev=n > 2)
            deed = c.choose('deed', tuple(DEEDS), dev=n > 1)
            f, m = function(kind, deed, 'abc'[i])
            fs.append(f)
            ms.append(m)
        config = build(shape, fs)
        src = runs.source()
        place = runs.Place()
        try:
            want = [(os.path.basename(f), ()) for f, _ in src.expected()]
            counts = []
            for m in ms:
                n0 = len(want)
                want = m(want)
                counts.append((n0, len(want)))
            c.state((repr(shape), [c_ for c_ in c.choices]))
            got = call(c, system_model, src.path, config, False, True)
            c.expect(isinstance(got, tuple), lambda: repr(got))
            out, data = got
            c.expect(runs.brief(data) == want, lambda: 'run gave %r instead of %r' % (runs.brief(data), want))
            log = [x for x in runs.log_lines(out.directory) if x['type'].startswith('function')]
            names = [x['name'] for x in log]
            c.expect(names == ['f' + 'abc'[i] for i in range(n) for _ in (0, 1)], lambda: 'the log tells of %r' % names)
            c.expect([x['index'] for x in log] == [i for i in range(n) for _ in (0, 1)], lambda: 'indices %r' % log)
            c.expect([x['type'] for x in log] == ['function start', 'function end'] * n, lambda: 'types %r' % log)
            c.expect([x['count'] for x in log] == [k for p in counts for k in p], lambda: 'counts %r instead of %r' % ([x['count'] for x in log], counts))
            c.outcome((repr(want), names))
        finally:
            place.close()
    return scenario


def named(c):
    """The configurations which can be asked for by name."""
    want = {None: configuration.cutoff_config, 'cutoff': configuration.cutoff_config,
            'cutoff_ecoinvent_row': configuration.cutoff_config_ecoinvent_row, 'consequential': configuration.consequential_config}
    name = c.choose('configuration', tuple(want))
    how = c.choose('given', ('name', 'object', 'list'))
    config = name if how == 'name' else want[name] if how == 'object' else list(want[name])
    place = runs.Place()
    try:
        got = call(c, system_model, runs.source().path, config, False, True)
        c.expect(isinstance(got, tuple), lambda: repr(got))
        log = [x['name'] for x in runs.log_lines(got[0].directory) if x['type'] == 'function start']
        names = [get_function_meta(f)['name'] for f in want[name]]
        c.expect(log == names, lambda: '%s ran %r instead of %r' % (name, log, names))
        c.state((name, how))
        c.outcome(tuple(log))
    finally:
        place.close()


OPS = ('append', 'insert', 'insert collection', 'delete', 'set', 'extend', 'pop', 'reverse', 'remove', 'clear', '+=')


def edits(depth, start):
    """Collections behave like the flat list of their functions."""
    def scenario(c):
        made = []

        def new():
            i = len(made)

            def f(data):
                return data + [i]
            made.append(f)
            return f
        n = c.choose('functions', start)
        first = [new() for _ in range(n)]
        nested = c.flag('nested') if n > 1 else False
        coll = Collection('c', first[0], Collection('d', *first[1:])) if nested else Collection('c', *first)
        model = list(first)
        for i in range(depth):
            op = c.choose('op %d' % i, OPS)
            at = 0
            if op in ('insert', 'delete', 'set', 'insert collection'):
                at = c.choose('at', list(range(-1, len(model) + (op.startswith('insert')))))
                if op in ('delete', 'set') and not model:
                    raise Skip
            if op in ('pop', 'remove') and not model:
                raise Skip
            for x in (coll, model):
                if op == 'append':
                    if x is coll:
                        f = new()
                    x.append(f)
                elif op == 'insert':
                    if x is coll:
                        f = new()
                    x.insert(at, f)
                elif op == 'insert collection':
                    # a nested collection is one element, and calls its functions
                    if x is coll:
                        f = Collection('e', new(), new())
                    x.insert(at, f)
                elif op == 'delete':
                    del x[at]
                elif op == 'set':
                    if x is coll:
                        f = new()
                    x[at] = f
                elif op in ('extend', '+='):
                    if x is coll:
                        f = [new(), new()]
                    if op == 'extend':
                        x.extend(f)
                    else:
                        x += f
                elif op == 'pop':
                    x.pop()
                elif op == 'reverse':
                    x.reverse()
                elif op == 'clear':
                    x.clear()
                else:
                    x.remove(model[0])
            c.step()
            c.expect(list(coll) == model and len(coll) == len(model), lambda: 'after %s: %r instead of %r' % (op, list(coll), model))
            c.expect(list(reversed(coll)) == model[::-1], 'reversed')
            c.expect(all(x in coll for x in model) and all((f in coll) == (f in model) for f in made), 'contains')
            c.expect([coll[k] for k in range(len(model))] == model, 'getitem')
            want = [7]
            for m in model:
                want = m(want)
            got = call(c, coll, [7])
            c.expect(got == want, lambda: 'calling gives %r instead of %r' % (got, want))
            again = Collection('again', coll, coll)
            flat = [g for m in model for g in (m if isinstance(m, Collection) else [m])]
            c.expect(list(again) == flat * 2, 'nested collection is not unwrapped')
            c.state(tuple(want))
            c.outcome(tuple(want))
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    runs.source()
    for n, b in ((1, None), (2, 2 if big else 1), (3, 2 if big else 1)):
        rep.add('%d functions' % n, explore('%d functions' % n, models(n), bound=b), 'all shapes of %d functions and kinds of function, <=%s deviations' % (n, b))
    rep.add('named configurations', explore('named configurations', named), 'all names and ways to give a configuration')
    rep.add('editing collections', explore('editing collections', edits(3 if big else 2, (0, 1, 2, 3))), 'all histories of %d edits' % (3 if big else 2))
