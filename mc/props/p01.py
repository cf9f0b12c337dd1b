"""P01 -- cleaning up formulas never changes what they mean."""
from copy import deepcopy

from ..engine import Skip, explore
from ..gen import dataset, exchange, product
from ..ref import params
from ..ref.check import Raised, call
from ..ref.common import close, diff

from ocelot.transformations.parameterization import fix_ecoinvent_parameters

# Name as written in formulas, name as written where it is defined, value
NAMES = (
    ('x', 'x', 3.), ('Yield', 'yield', 1.25), ('yield_management', 'Yield_Management', 5.), ('in2', 'in2', 7.),
    ('lambda', 'Lambda', 2.5), ('LAMBDA2', 'lambda2', 1.5), ('min_in', 'min_in', 4.), ('if_rate', 'IF_rate', 0.75),
    ('class', 'class', 6.), ('for_x', 'for_x', 8.), ('x_yield', 'x_yield', 9.), ('e1', 'e1', 11.), ('from', 'From', 1.75),
)
WORDS = (('in', 'in', 13.), ('or', 'or', 0.3), ('is', 'Is', 0.6))
VALUE = {n[0]: n[2] for n in NAMES + WORDS}
NUMBERS = (('2', 2.), ('0.5', .5), ('1E-2', .01), ('40%', .4), ('12.5%', .125), ('.5', .5))

# text with {n} for sub-terms, meaning, precedence of result, needed precedence per operand
# (sum 1, product 2, sign 3, power 4, atom 5)
OPS = {
    'add': ('{0}+{1}', lambda a, b: a + b, 1, (1, 2)),
    'sub': ('{0} - {1}', lambda a, b: a - b, 1, (1, 2)),
    'mul': ('{0}*{1}', lambda a, b: a * b, 2, (2, 3)),
    'div': ('{0}/ {1}', lambda a, b: a / b, 2, (2, 3)),
    'pow': ('{0}^{1}', lambda a, b: a ** b, 4, (5, 5)),
    'neg': ('-{0}', lambda a: -a, 3, (5,)),
    'paren': ('({0})', lambda a: a, 5, (0,)),
    'abs': ('ABS({0})', abs, 5, (0,)),
    'power': ('{power}({0};{1})', lambda a, b: a ** b, 5, (0, 0)),
    'if': ('{if}({0}>2;{1};{2})', lambda a, b, d: b if a > 2 else d, 5, (1, 0, 0)),
    'same': ('{if}({0}<2;{1};{1})', lambda a, b: b, 5, (1, 0)),
}


def term(c, depth, where, used, prec, names, ops):
    """A random-access enumeration of terms: returns (text, value)."""
    kinds = ('leaf',) + (ops if depth else ())
    kind = c.choose('%s' % where, kinds)
    if kind == 'leaf':
        options = [('x', 3.)] + [(n[0], n[2]) for n in names if n[0] != 'x'] + list(NUMBERS)
        text, value = c.choose('leaf', options, dev=True)
        if text in VALUE:
            used.add(text)
            if c.flag('percent', dev=True):
                return text + '%', value / 100
        return text, value
    fmt, fn, p, need = OPS[kind]
    subs = [term(c, depth - 1, '%s.%d' % (where, i), used, q, names, ops) for i, q in enumerate(need)]
    try:
        value = fn(*[s[1] for s in subs])
    except (ZeroDivisionError, OverflowError):
        raise Skip
    if isinstance(value, complex) or abs(value) > 1e12:
        raise Skip
    text = fmt.replace('{if}', IF[0]).replace('{power}', IF[1])
    for i, s in enumerate(subs):
        text = text.replace('{%d}' % i, s[0])
    if p < prec:
        text = '(' + text + ')'
    return text, value


IF = ['IF', 'power']
CARRIERS = ('exchange', 'volume', 'property', 'parameter')


def world(text, carrier, defined, value, names):
    o = {'amount': value, 'formula': text, 'variable': 'Result', 'id': 'o', 'name': 'o'}
    ex = product('rp', 'thing', 1., pv=3.)
    ds = dataset('d', 'an activity', exchanges=[ex, exchange('f', 'to environment', 'CO2', 1.5)])
    for i, (_, d, v) in enumerate(names):
        p = {'name': 'n', 'id': 'p%d' % i, 'variable': d, 'amount': v}
        if defined == 'parameter':
            ds['parameters'].append(p)
        elif defined == 'exchange':
            ds['exchanges'].append(dict(exchange('v%d' % i, 'from technosphere', d, v), variable=d))
        else:
            ex.setdefault('properties', []).append(p)
    if carrier == 'exchange':
        ds['exchanges'].append(dict(o, type='from technosphere', unit='kg', tag='intermediateExchange'))
    elif carrier == 'volume':
        o.pop('id'), o.pop('name')
        ex['production volume'] = o
    elif carrier == 'property':
        ex.setdefault('properties', []).append(o)
    else:
        ds['parameters'].append(o)
    return ds


def objects(ds):
    for e in ds['exchanges']:
        yield e
        if 'production volume' in e:
            yield e['production volume']
        yield from e.get('properties', ())
    yield from ds['parameters']


def expressions(depth, ops):
    def scenario(c):
        words = c.choose('names', ('plain', 'words'))
        names = NAMES if words == 'plain' else NAMES[:2] + WORDS
        used = set()
        text, value = term(c, depth, 't', used, 0, names, ops)
        if words == 'words' and not used & {w[0] for w in WORDS}:
            raise Skip
        style = c.choose('style', ('plain', 'leading space', 'line break', 'lower'), dev=True)
        carrier = c.choose('carrier', CARRIERS, dev=True)
        defined = c.choose('defined', ('parameter', 'exchange', 'property'), dev=True)
        if style == 'leading space':
            text = ' ' + text + ' '
        elif style == 'line break':
            if '-' not in text[1:] or 'E-' in text:
                raise Skip
            text = text[:1] + text[1:].replace('-', '-\r\n')
        elif style == 'lower':
            text = text.lower()
        ds = world(text, carrier, defined, value, names)
        before = deepcopy(ds)
        c.state(text)
        data = call(c, fix_ecoinvent_parameters, [ds])
        c.expect(isinstance(data, list) and len(data) == 1, lambda: '%r: %r' % (text, data))
        env, mine = {}, None
        for a, b in zip(objects(before), objects(data[0])):
            da = {k: v for k, v in a.items() if k not in ('formula', 'variable', 'properties', 'production volume')}
            db = {k: v for k, v in b.items() if k not in ('formula', 'variable', 'properties', 'production volume')}
            p = diff(da, db)
            c.expect(not p, lambda: '%r: %r' % (text, p))
            c.expect(('variable' in a) == ('variable' in b), lambda: '%r: variable lost: %r' % (text, b))
            if 'variable' in a:
                c.expect(b['variable'] not in env and b['variable'].lower() == a['variable'].lower() and b['variable'].isidentifier(),
                         lambda: '%r: variable %r renamed to %r' % (text, a['variable'], b['variable']))
                env[b['variable']] = b['amount']
            c.expect('formula' in a or 'formula' not in b, 'formula added')
            if 'formula' in a:
                mine = b
        c.expect(mine is not None and mine['variable'].lower() == 'result', 'formula object lost')
        env.pop(mine['variable'])
        if 'formula' not in mine:
            # Reserved words used as names next to if() can't be told from the operators
            c.expect(words == 'words' and 'if(' in text.lower(), lambda: '%r was deleted' % text)
            c.outcome('deleted')
            return
        try:
            got = params.evaluate(mine['formula'], env)
        except Exception as e:
            c.expect(False, '%r became %r, which can not be evaluated: %r' % (text, mine['formula'], e))
        c.expect(close(got, value), lambda: '%r means %r, but became %r, which is %r' % (text, value, mine['formula'], got))
        c.outcome(mine['formula'])
    return scenario


BAD = ('x +', '(x', 'x)', 'x y', '2x', 'min(x;2)', 'x = 3', 'if(x=3;1;2)', 'x?', "x + 'a", '1..2', '1,5 kg', '[x', 'if(x<>3;1;2)', 'x %',
       'yield yield', '3 class', '50 %*x', '(x+x)%', '$x')


def unparsable(c):
    """Formulas nobody can read are removed; the amount stays."""
    bad = c.choose('formula', BAD)
    carrier = c.choose('carrier', CARRIERS)
    other = c.choose('other', ('x*2', 'x', None))
    ds = world(bad, carrier, 'parameter', 17.5, NAMES[:2])
    if other:
        ds['exchanges'].append(exchange('o2', 'to environment', 'other', 6., formula=other))
    before = deepcopy(ds)
    c.state((bad, carrier, other))
    data = call(c, fix_ecoinvent_parameters, [ds])
    c.expect(isinstance(data, list) and len(data) == 1, lambda: '%r: %r' % (bad, data))
    for a, b in zip(objects(before), objects(data[0])):
        if a.get('formula') == bad:
            c.expect('formula' not in b and b['amount'] == 17.5, lambda: '%r became %r' % (bad, b))
        elif 'formula' in a:
            c.expect(b.get('formula') == a['formula'] and a['amount'] == b['amount'], lambda: '%r became %r' % (a, b))
    c.outcome((bad, carrier))


def run(rep, tier):
    big = tier == 'thorough'
    flat = tuple(OPS)
    rep.add('expressions of depth 1', explore('expressions of depth 1', expressions(1, flat), bound=4 if big else 3), 'one operator, <=%d deviations from the plainest leaves' % (4 if big else 3))
    rep.add('expressions of depth 2', explore('expressions of depth 2', expressions(2, flat), bound=2 if big else 1), 'two levels of operators, <=%d deviations' % (2 if big else 1))
    rep.add('unparsable', explore('unparsable', unparsable), 'formulas that no parser accepts')
