"""I01 -- extraction returns what the ecospold2 files say."""
import os
import shutil
import tempfile
from copy import deepcopy

from ..engine import Skip, explore
from ..ref import spold
from ..ref.check import Raised, call
from ..ref.common import diff

from ocelot.io import extract_directory
from ocelot.io.extract_ecospold2 import generic_extractor

PED = ((1, 2, 3, 4, 5), (5, 1, 1, 2, 3))
TEXT = ('plain', 'Zürich & <co> "x"', '  inner  space', '电力')


def unc(c, what):
    kind = c.choose(what, (None,) + tuple(spold.DISTRIBUTIONS), dev=True)
    return (kind, c.choose('pedigree', (None,) + PED)) if kind else None


def quantity(c, what):
    return {'variable': c.choose(what + ' variable', (None, 'Foo_1', ' bar '), dev=True),
            'formula': c.choose(what + ' formula', (None, 'a*2', " if(x<3;1;2) & 'q' "), dev=True), 'unc': unc(c, what + ' uncertainty')}


def write(where, name, text):
    p = os.path.join(where, name)
    with open(p, 'wb') as f:
        f.write(text.encode('utf-8'))
    return p


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp()
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def check(c, path, want, got):
    c.expect(isinstance(got, list) and len(got) == len(want), lambda: 'extracted %r' % (got,))
    for w, g in zip(want, got):
        c.outcome(repr(w))
        w = dict(w, filepath=path)
        p = diff(w, g)
        c.expect(not p, lambda: repr(p))


def extracted(c, acts, **kw):
    with Scratch() as d:
        p = write(d, 'file.spold', spold.document(acts, **kw))
        c.state(repr([a[1] for a in acts]))
        got = call(c, generic_extractor, p)
        check(c, p, [a[1] for a in acts], got)


PROPS = (1, 2)
REMARKS = (False, True, '<?render fast?>', '\n  <!-- <activityDataset/> -->\n')


def metadata(c):
    flow = spold.exchange('intermediateExchange', 'e1', 'thing', '1', 'output', '0', volume='5')
    a = spold.activity(
        'id1', c.choose('name', TEXT, dev=True), location=c.choose('location', ('GLO', 'RoW', 'CA-QC'), dev=True),
        type=c.choose('type', tuple(spold.ACTIVITY)), level=c.choose('level', tuple(spold.LEVEL), dev=True),
        access=c.choose('access', tuple(spold.ACCESS), dev=True), start=c.choose('start', ('1996-01-01', '2001-12-31'), dev=True),
        end=c.choose('end', ('2015-12-31', '2020-06-30'), dev=True), scenario=c.choose('scenario', ('Business-as-Usual', 'Other'), dev=True),
        parent=c.choose('parent', (None, 'some uuid'), dev=True), isic=c.choose('isic', ('ISIC rev.4 ecoinvent', 'ISIC', 'other'), dev=True),
        isic_value=c.choose('isic value', ('420', '1701a:Manufacture'), dev=True), flows=[flow], element=c.choose('element', ('activityDataset', 'childActivityDataset'), dev=True),
        author=c.choose('author', ('Fred', 'Änne'), dev=True), entry=c.choose('entry', ('Wilma', 'Fred'), dev=True),
        comments=c.choose('remarks', REMARKS, dev=True), first_class=c.flag('another classification first', dev=True))
    acts = [a, spold.activity('id2', 'second', flows=[flow])] if c.flag('two datasets', dev=True) else [a]
    extracted(c, acts, bom=c.flag('byte order mark', dev=True), comments=c.choose('remarks between datasets', REMARKS, dev=True))


def flows(c):
    kind, group, code = c.choose('flow', [('intermediateExchange', 'output', k) for k in ('0', '2', '3', '5')] +
                                 [('intermediateExchange', 'input', k) for k in ('5', '1', '2', '3')] +
                                 [('elementaryExchange', 'input', '4'), ('elementaryExchange', 'output', '4')])
    atype = c.choose('activity', ('0', '1', '10'))
    amount = c.choose('amount', ('1.5', '-2', '0', '1E-12', '-0.0'))
    kw = {'link': c.choose('link', (None, 'target-id'))}
    kw.update(quantity(c, 'flow'))
    if kind == 'intermediateExchange':
        kw['classification'] = c.choose('classification', (None,) + tuple(spold.BYPRODUCT), dev=True)
        kw['other_classification'] = c.flag('other classification', dev=True)
        kw['volume'] = c.choose('volume', ('5', None, '0', '1e9', '-3'), dev=True)
        q = quantity(c, 'volume')
        kw.update(volume_variable=q['variable'], volume_formula=q['formula'], volume_unc=q['unc'])
    else:
        kw['compartment'] = c.choose('compartment', (('air', 'unspecified'), ('natural resource', 'in ground')), dev=True)
    kw['synonym'] = c.flag('synonym', dev=True)
    kw['group_first'] = c.flag('group first', dev=True)
    props = []
    for i in range(c.choose('properties', (0, 1, 2), dev=True)):
        props.append(spold.prop('prop%d' % i, TEXT[i], ('0.5', '-7')[i], unit=c.choose('property unit', ('kg', None), dev=True), **quantity(c, 'property')))
    kw['properties'] = props
    e = spold.exchange(kind, 'e1', c.choose('name', TEXT, dev=True), amount, group, code, market=atype == '1', unit=c.choose('unit', ('kg', 'm2*year'), dev=True), **kw)
    other = spold.exchange('intermediateExchange', 'e2', 'other', '3', 'input', '5')
    order = [other, e] if c.flag('second', dev=True) else [e, other]
    extracted(c, [spold.activity('id1', 'name', type=atype, flows=order)])


def parameters(c):
    n = c.choose('parameters', (1, 2, 3))
    ps = [spold.parameter('par%d' % i, c.choose('name', TEXT, dev=True), ('0.5', '-7', '1e3')[i], unit=c.choose('unit', ('kg', None), dev=True), **quantity(c, 'p%d' % i)) for i in range(n)]
    flow = spold.exchange('intermediateExchange', 'e1', 'thing', '1', 'output', '0', volume='5')
    extracted(c, [spold.activity('id1', 'name', flows=[flow] * c.choose('flows', (1, 2, 0)), parameters=ps)])


def properties(c):
    """Everything properties of flows can have."""
    props = [spold.prop('prop%d' % i, c.choose('property name', TEXT, dev=True), c.choose('property amount', ('0.5', '-7', '0', '1E-3'), dev=True),
                        unit=c.choose('property unit', ('kg', None), dev=True), **quantity(c, 'property %d' % i)) for i in range(c.choose('properties', PROPS))]
    kind, group, code = c.choose('flow', (('intermediateExchange', 'output', '0'), ('intermediateExchange', 'input', '5'), ('elementaryExchange', 'output', '4')))
    kw = {'compartment': ('air', 'unspecified')} if kind == 'elementaryExchange' else {'volume': '5'} if group == 'output' else {}
    e = spold.exchange(kind, 'e1', 'thing', '2', group, code, properties=props, **kw)
    extracted(c, [spold.activity('id1', 'name', flows=[e])], comments=c.choose('remarks', REMARKS, dev=True))


FILES = ('b.spold', 'a.SPOLD', 'Z.Spold', '.hidden.spold', 'note.txt', 'x.spold.bak', 'spold')


def directory(c):
    """All files of a directory, in one process or in several."""
    with Scratch() as d:
        names = c.subset('file', FILES)
        want = {}
        for i, n in enumerate(names):
            acts = [spold.activity('id%d%d' % (i, j), '%s %d' % (n, j), flows=[spold.exchange('intermediateExchange', 'e', n, str(i + 1), 'output', '0')],
                                   element=('activityDataset', 'childActivityDataset')[j % 2]) for j in range(1 + i % 2)]
            p = write(d, n, spold.document(acts) if not n.endswith('.txt') else 'not xml')
            if n.lower().endswith('.spold'):
                want[p] = [dict(a[1], filepath=p) for a in acts]
        c.state(tuple(names))
        one = call(c, extract_directory, d, False, False)
        many = call(c, extract_directory, d, False, True)
        for got, how in ((one, 'serial'), (many, 'parallel')):
            c.expect(isinstance(got, list), lambda: '%s: %r' % (how, got))
            c.expect(len(got) == sum(map(len, want.values())), lambda: '%s: %d datasets of files %r' % (how, len(got), names))
            for p, w in want.items():
                mine = [g for g in got if g['filepath'] == p]
                c.expect(not diff(w, mine), lambda: '%s: %s: %r' % (how, p, diff(w, mine)))
        c.outcome(tuple(names))


def broken(c):
    """A file that can't be read stops the extraction, whether or not it runs in parallel."""
    what = c.choose('broken', ('cut off', 'no flow data', 'unknown type', 'empty', 'two classifications', 'no amount'))
    mp = c.flag('parallel')
    with Scratch() as d:
        good = spold.activity('id', 'good', flows=[spold.exchange('intermediateExchange', 'e', 'x', '1', 'output', '0')])
        write(d, 'good.spold', spold.document([good]))
        text = spold.document([good])
        if what == 'cut off':
            text = text[:len(text) // 2]
        elif what == 'no flow data':
            text = text[:text.index('<flowData>')] + text[text.index('</flowData>') + 11:]
        elif what == 'unknown type':
            text = text.replace('specialActivityType="0"', 'specialActivityType="99"')
        elif what == 'empty':
            text = ''
        elif what == 'no amount':
            text = text.replace(' amount="1"', '')
        else:
            k = '<classification>%s%s</classification>'
            k = ''.join(k % (spold.tag('classificationSystem', 'By-product classification'), spold.tag('classificationValue', v)) for v in ('Waste', 'Recyclable'))
            text = text.replace('<outputGroup>', k + '<outputGroup>')
        write(d, 'bad.spold', text)
        c.state((what, mp))
        got = call(c, extract_directory, d, False, mp)
        c.expect(isinstance(got, Raised), lambda: '%s: %r' % (what, got))
        c.outcome(got.name)


def run(rep, tier):
    big = tier == 'thorough'
    b = 3 if big else 2
    rep.add('metadata', explore('metadata', metadata, bound=b), 'all activity types, <=%d deviations in the other fields' % b)
    rep.add('flows', explore('flows', flows, bound=2 if big else 1), 'all flow groups, activity kinds, amounts and links, <=%d deviations' % (2 if big else 1))
    rep.add('properties', explore('properties', properties, bound=3 if big else 2), '1 or 2 properties of three kinds of flow, <=%d deviations' % b)
    rep.add('parameters', explore('parameters', parameters, bound=3 if big else 2), '<=3 parameters')
    rep.add('directories', explore('directories', directory, parallel=False), 'all subsets of seven file names, serial and parallel extraction')
    rep.add('broken files', explore('broken files', broken, parallel=False), 'six kinds of broken files')
    rep.assume('files are schema-conformant UTF-8 ecospold2 documents, except in "broken files"')
