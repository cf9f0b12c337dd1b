"""R03 -- the command line does what the functions of the library do."""
import contextlib
import inspect
import io
import os
import sys

from ..engine import Skip, explore
from ..ref import runs
from ..ref.check import Raised, call

import ocelot
from ocelot import cleanup_data_directory, data_dir, system_model, validate_directory, validate_directory_against_xsd
from ocelot.bin import ocelot_cli

FUNCTIONS = {f.__name__: f for f in (system_model, cleanup_data_directory, validate_directory, validate_directory_against_xsd)}
WORDS = ('run', 'validate', 'xsd', 'cleanup', 'some dir', 'cutoff')
OPTIONS = ('--noshow', '--save=2', '--follow=a.spold', '--list', '-l', '-h', '--version', '--bogus', '--save', '--follow', '--help')
TAKES = ('--save', '--follow')


def meaning(tokens):
    """What a command line means: ('call', function, arguments) or 'help', 'version', 'list', 'usage'."""
    opts, words, i = [], [], 0
    tokens = list(tokens)
    while i < len(tokens):
        t = tokens[i]
        if t in TAKES:
            if i + 1 == len(tokens):
                return 'usage'
            if tokens[i + 1].startswith('-'):
                raise Skip('option as value')
            opts.append((t, tokens[i + 1]))
            i += 1
        elif t.startswith('--') and '=' in t:
            opts.append(tuple(t.split('=', 1)))
        elif t.startswith('-'):
            opts.append((t, True))
        else:
            words.append(t)
        i += 1
    names = [o for o, _ in opts]
    if '-h' in names or '--help' in names:
        return 'help'
    if '--version' in names:
        return 'version'
    if not words and names in (['-l'], ['--list']):
        return 'list'
    if not words or len(set(names)) != len(names):
        return 'usage'
    o = dict(opts)
    if words[0] == 'run' and len(words) in (2, 3) and set(names) <= {'--noshow', '--save', '--follow'}:
        return 'call', 'system_model', {'data_path': words[1], 'config': words[2] if len(words) == 3 else None, 'show': '--noshow' not in o, 'use_cache': True,
                                        'save_strategy': o.get('--save'), 'follow': o.get('--follow')}
    if names:
        return 'usage'
    if words[0] == 'validate' and len(words) == 2:
        return 'call', 'validate_directory', {'dirpath': words[1]}
    if words[0] == 'xsd' and len(words) in (2, 3):
        return 'call', 'validate_directory_against_xsd', {'dirpath': words[1], 'schema': words[2] if len(words) == 3 else os.path.join(data_dir, 'EcoSpold02.xsd')}
    if words == ['cleanup']:
        return 'call', 'cleanup_data_directory', {}
    return 'usage'


class StandIns:
    """Record calls of the four functions, under whatever names modules know them."""
    def __init__(self, behaviour=None):
        self.calls, self.behaviour = [], behaviour

    def __enter__(self):
        self.old = []
        for name, f in FUNCTIONS.items():
            def stand_in(*a, _name=name, _f=f, **kw):
                b = inspect.signature(_f).bind(*a, **kw)
                b.apply_defaults()
                self.calls.append((_name, dict(b.arguments)))
                if self.behaviour:
                    raise self.behaviour
            for m in [m for n, m in sys.modules.items() if n.split('.')[0] == 'ocelot' and m]:
                for k, v in list(vars(m).items()):
                    if v is f:
                        self.old.append((m, k, f))
                        setattr(m, k, stand_in)
        return self

    def __exit__(self, *a):
        for m, k, f in self.old:
            setattr(m, k, f)


def command(c, tokens):
    """Run the command line in this process: (exit status or exception, output)."""
    argv, out = sys.argv, io.StringIO()
    sys.argv = ['ocelot-cli'] + list(tokens)
    c.step()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                ocelot_cli.main()
                status = 0
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if e.code and not isinstance(e.code, int):
                    out.write(str(e.code))
            except KeyboardInterrupt:
                status = 'interrupted'
            except Exception as e:
                status = Raised(e)
    finally:
        sys.argv = argv
    return status, out.getvalue()


def judge(c, tokens):
    want = meaning(tokens)
    c.state(tuple(tokens))
    with StandIns() as s:
        status, out = command(c, tokens)
    if isinstance(want, tuple):
        c.expect(s.calls == [want[1:]] and status == 0, lambda: '%r called %r (%r), expected %r' % (tokens, s.calls, status, want))
    else:
        c.expect(not s.calls, lambda: '%r (%s) called %r' % (tokens, want, s.calls))
        c.expect((status != 0 and not isinstance(status, Raised)) == (want == 'usage') and (want == 'usage' or status == 0), lambda: '%r (%s) exits with %r' % (tokens, want, status))
        c.expect('CLI' in out if want == 'version' else 'ocelot-cli run' in out, lambda: '%r (%s) says %r' % (tokens, want, out))
        if want == 'help':
            c.expect('Options:' in out, lambda: 'help is %r' % out)
    c.outcome(want[1] if isinstance(want, tuple) else want)


def lines(most):
    def scenario(c):
        """Command lines of up to so many words."""
        judge(c, [c.choose('word', WORDS + OPTIONS) for _ in range(c.choose('words', range(most + 1)))])
    return scenario


def arranged(most):
    return lambda c: arrange(c, most)


def arrange(c, most):
    """Complete commands with each set of options, at any place."""
    words = c.choose('command', (('run', 'DIR'), ('run', 'DIR', 'cutoff_ecoinvent_row'), ('validate', 'DIR'), ('xsd', 'DIR'), ('xsd', 'DIR', 'own.xsd'), ('cleanup',), ('run', 'DIR', 'cutoff', 'more'), ('run', 'cleanup'), ('xsd', 'run', 'validate')))
    opts = []
    for i in range(c.choose('options', range(most + 1))):
        opts.append(c.choose('option', (('--noshow',), ('--save=1:2',), ('--save', '3'), ('--follow=some file.spold',), ('--follow', 'x'), ('--list',), ('--bogus',))))
    tokens = [[w] for w in words]
    for o in opts:
        tokens.insert(c.choose('at', range(len(tokens) + 1)), list(o))
    judge(c, [t for x in tokens for t in x])


def failing(c):
    """Interrupts give exit status 1; errors are not hidden."""
    tokens = c.choose('command', (['run', 'DIR'], ['run', 'DIR', 'cutoff', '--noshow'], ['validate', 'DIR'], ['xsd', 'DIR'], ['xsd', 'DIR', 'S'], ['cleanup']))
    exc = c.choose('ends with', (KeyboardInterrupt(), ValueError('no'), AssertionError('x'), OSError(28, 'full'), KeyError('k'), SystemExit(3)))
    c.state((tuple(tokens), repr(exc)))
    with StandIns(exc) as s:
        status, out = command(c, tokens)
    c.expect(len(s.calls) == 1, lambda: '%r called %r' % (tokens, s.calls))
    if isinstance(exc, KeyboardInterrupt):
        c.expect(status == 1, lambda: 'interrupted, but exits with %r' % (status,))
    elif isinstance(exc, SystemExit):
        c.expect(status == 3, lambda: 'status %r' % (status,))
    else:
        c.expect(isinstance(status, Raised) and status.name == type(exc).__name__ or status not in (0, 'interrupted') and not isinstance(status, Raised), lambda: '%r became %r' % (exc, status))
    c.outcome(repr(exc))


def shown(place):
    """What lies in the output directory after runs, without what differs between any two runs."""
    out = []
    for d in place.dirs():
        full = os.path.join(place.path, d)
        log = [{k: v for k, v in x.items() if k not in ('time', 'uuid')} for x in runs.log_lines(full)]
        out.append((sorted(f for f in os.listdir(full)), log, runs.intermediate(full), runs.followed(full)))
    return out


def real(c):
    """Model runs from the command line leave what runs from Python leave, and open the report or not."""
    src = runs.source()
    config = c.choose('configuration', (None, 'cutoff', 'cutoff_ecoinvent_row', 'consequential'))
    save = c.choose('save', (None, '2', '1:9:3', ':'))
    follow = c.choose('follow', (None, 'a.spold', 'nothing.spold'), dev=False)
    noshow = c.flag('no show')
    c.state((config, save, follow, noshow))
    seen = []
    import webbrowser
    old = webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab
    results = []
    try:
        webbrowser.open = webbrowser.open_new = webbrowser.open_new_tab = lambda url, *a, **kw: seen.append(os.path.basename(url))
        for how in ('command', 'python'):
            place = runs.Place()
            del seen[:]
            try:
                if how == 'command':
                    tokens = ['run', src.path] + ([config] if config else []) + (['--noshow'] if noshow else []) + (['--save=' + save] if save else []) + (['--follow', follow] if follow else [])
                    status, _ = command(c, tokens)
                    status = status.name if isinstance(status, Raised) else status
                else:
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        got = call(c, system_model, src.path, config, show=not noshow, save_strategy=save, follow=follow)
                    status = got.name if isinstance(got, Raised) else 0
                results.append((status, len(seen), shown(place)))
            finally:
                place.close()
    finally:
        webbrowser.open, webbrowser.open_new, webbrowser.open_new_tab = old
    a, b = results
    c.expect(a[0] == b[0], lambda: 'command: %r, Python: %r' % (a[0], b[0]))
    c.expect(a[1] == b[1], lambda: 'reports opened: command %d, Python %d' % (a[1], b[1]))
    c.expect(a[2] == b[2], lambda: 'command left %.400r, Python %.400r' % (a[2], b[2]))
    c.expect(a[0] != 0 or a[1] == (not noshow), lambda: '%d reports opened' % a[1])
    c.outcome((a[0], a[1], [(len(x[0]), len(x[1]), len(x[2]), len(x[3])) for x in a[2]]))


def run(rep, tier):
    big = tier == 'thorough'
    n = 4 if big else 3
    rep.add('command lines', explore('command lines', lines(n)), 'all command lines of <=%d of %d words and options' % (n, len(WORDS + OPTIONS)))
    rep.add('options anywhere', explore('options anywhere', arranged(n - 1)), 'nine complete commands with <=%d options at any place' % (n - 1))
    rep.add('failures', explore('failures', failing), 'all commands ending with interrupts and errors')
    rep.add('real runs', explore('real runs', real), 'all configurations, saving, following, showing: command line against Python')
    rep.assume('abbreviated options, options as values of options and -- are not judged')
