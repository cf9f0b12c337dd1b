"""I03 -- what can be extracted is in the documented internal format, and the validators say exactly what is not."""
import contextlib
import io
import os
import re
from copy import deepcopy

from ..engine import Skip, explore
from ..ref import format as fmt
from ..ref import spold
from ..ref.check import Raised, call
from ..ref.common import diff, same
from ..ref import runs
from .i01 import Scratch, TEXT, write

from ocelot import data_dir
from ocelot.io import dataset_schema, extract_directory, validate_directory, validate_directory_against_xsd
from ocelot.io.extract_ecospold2 import generic_extractor

PED = (None, (1, 2, 3, 4, 5))


def judge(c, ds, unsure=False):
    """The format accepts a dataset exactly if it is as documented; returns whether it does."""
    before = deepcopy(ds)
    want = fmt.dataset(ds)
    got = call(c, dataset_schema, ds)
    c.expect(same(before, ds), 'validation changed the dataset')
    if isinstance(got, Raised):
        c.expect(got.name in ('MultipleInvalid', 'Invalid'), lambda: repr(got))
    if not unsure:
        c.expect(want != isinstance(got, Raised), lambda: '%s, but should be %s: %r' % ('invalid (%s)' % got if isinstance(got, Raised) else 'valid', 'valid' if want else 'invalid', ds))
    if not isinstance(got, Raised):
        c.expect(not diff(before, got), lambda: 'validated dataset differs: %r' % diff(before, got))
    return want


def q(c, what):
    kind = c.choose(what + ' uncertainty', (None,) + tuple(spold.DISTRIBUTIONS), dev=True)
    return {'unc': (kind, c.choose('pedigree', PED)) if kind else None, 'variable': c.choose(what + ' variable', (None, 'v_' + what[:2]), dev=True),
            'formula': c.choose(what + ' formula', (None, '2 * 3'), dev=True)}


def extracted(c):
    """Everything which can be extracted is in the format, but for the groups Ocelot doesn't use and activities without ISIC class."""
    kind, group, code = c.choose('flow', [('intermediateExchange', 'output', k) for k in ('0', '2', '3', '5')] +
                                 [('intermediateExchange', 'input', k) for k in ('5', '1', '2', '3')] +
                                 [('elementaryExchange', 'input', '4'), ('elementaryExchange', 'output', '4')])
    kw = q(c, 'flow')
    if kind == 'intermediateExchange':
        kw['classification'] = c.choose('classification', (None,) + tuple(spold.BYPRODUCT), dev=True)
        kw['link'] = c.choose('link', (None, 'target'), dev=True)
        kw['volume'] = c.choose('volume', ('5', None, '0'), dev=True)
        v = q(c, 'volume')
        kw.update(volume_variable=v['variable'], volume_formula=v['formula'], volume_unc=v['unc'])
    n = c.choose('properties', (1, 0, 2), dev=True)
    kw['properties'] = [spold.prop('prop%d' % i, 'p', '0.5', unit=('kg', None)[i], **q(c, 'property')) for i in range(n)]
    m = c.choose('parameters', (1, 0, 2), dev=True)
    ps = [spold.parameter('par%d' % i, 'p', '0.5', unit=('kg', None)[i], **q(c, 'parameter')) for i in range(m)]
    isic = c.choose('isic', ('ISIC rev.4 ecoinvent', 'other'), dev=True)
    a = spold.activity('id1', 'name', type=c.choose('type', tuple(spold.ACTIVITY), dev=True), level=c.choose('level', tuple(spold.LEVEL), dev=True),
                       access=c.choose('access', tuple(spold.ACCESS), dev=True), parent=c.choose('parent', (None, 'p'), dev=True), isic=isic,
                       flows=[spold.exchange(kind, 'e1', 'thing', c.choose('amount', ('1', '-2.5', '0'), dev=True), group, code, **kw)] * c.choose('flows', (1, 0, 2), dev=True),
                       parameters=ps, element=c.choose('element', ('activityDataset', 'childActivityDataset'), dev=True))
    c.state(repr(a[1]))
    with Scratch() as d:
        p = write(d, 'f.spold', spold.document([a]))
        got = call(c, generic_extractor, p)
    c.expect(isinstance(got, list) and len(got) == 1, lambda: repr(got))
    ok = judge(c, got[0])
    used = (group, code) in (('output', '0'), ('output', '2'), ('output', '4'), ('input', '4'), ('input', '5')) or not a[1]['exchanges']
    c.expect(ok == (used and isic != 'other'), lambda: 'extracted %r' % (got,))
    c.outcome((ok, sorted(got[0])))


def rich():
    u = {k: spold.uncertainty('u', k, (1, 2, 3, 4, 5))[1] for k in spold.DISTRIBUTIONS}
    for k in u:
        if k in ('lognormal', 'normal'):
            assert 'pedigree matrix' in u[k]
    full = {'formula': 'a * 2', 'variable': 'v'}
    prop = dict({'amount': .5, 'id': 'p', 'name': 'dry mass', 'unit': 'kg', 'uncertainty': u['uniform']}, **full)
    rp = dict({'amount': 1., 'id': 'e1', 'name': 'thing', 'tag': 'intermediateExchange', 'type': 'reference product', 'unit': 'kg', 'byproduct classification': 'waste',
               'conditional exchange': False, 'production volume': dict({'amount': 5., 'uncertainty': u['normal']}, **full), 'properties': [prop, {k: prop[k] for k in ('amount', 'id', 'name', 'unit')}],
               'uncertainty': u['lognormal']}, **full)
    need = {'amount': -3., 'id': 'e2', 'name': 'other', 'tag': 'intermediateExchange', 'type': 'from technosphere', 'unit': 'kg', 'activity link': 'x', 'uncertainty': u['undefined'],
            'production volume': {'amount': 0., 'uncertainty': u['triangular']}}
    em = dict({'amount': 3., 'id': 'e3', 'name': 'CO2', 'tag': 'elementaryExchange', 'type': 'to environment', 'unit': 'kg', 'compartment': 'air', 'subcompartment': 'urban',
               'uncertainty': u['gamma'], 'properties': [dict(prop, uncertainty=u['beta'])]}, **full)
    par = dict({'unit': 'kg', 'amount': 1., 'id': 'q', 'name': 'par', 'uncertainty': u['binomial']}, **full)
    return deepcopy({'exchanges': [rp, need, em], 'parameters': [par], 'access restricted': 'public', 'economic scenario': 'BAU', 'end date': '2010-12-31', 'start date': '2000-01-01',
                     'filepath': '/f.spold', 'id': 'i', 'parent': None, 'code': 'c', 'location': 'GLO', 'name': 'n', 'technology level': 'current', 'type': 'market activity',
                     'dataset author': 'a', 'data entry': 'b', 'ISIC classification': '42', 'allocation method': 'no allocation', 'reference product': 'thing', 'suppliers': [{'x': 1}]})


def paths(x, at=()):
    yield at
    items = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
    for k, v in items:
        yield from paths(v, at + (k,))


PATHS = [p for p in paths(rich()) if p]
VALUES = (1.5, 2, 'text', None, True, [], {}, [1], {'a': 1}, 'waste', 'reference product', 'to environment', 'current', 'lognormal', 'uniform', 'public', float('inf'), -0., '')


def lookup(ds, path):
    for k in path:
        ds = ds[k]
    return ds


def mutated(times):
    def scenario(c):
        ds = rich()
        unsure = False
        shown = []
        for i in range(times):
            op = c.choose('change', ('nothing', 'delete', 'set', 'add'), dev=False)
            if op == 'nothing':
                break
            p = c.choose('place', PATHS)
            try:
                at = lookup(ds, p[:-1])
                old = at[p[-1]]
            except (KeyError, IndexError, TypeError):
                raise Skip('gone')
            if op == 'delete':
                if p[0] == 'parameters' and len(p) == 3 or 'pedigree matrix' in p[:-1]:
                    unsure = True         # documented without required=True
                del at[p[-1]]
                shown.append(('delete', p))
            elif op == 'set':
                v = c.choose('value', VALUES if times == 1 else VALUES[:5])
                if p == ('parameters', 0) and v == {}:
                    unsure = True
                at[p[-1]] = deepcopy(v)
                shown.append(('set', p, repr(v)))
            else:
                if not isinstance(old, dict):
                    raise Skip('no dictionary')
                k = c.choose('key', ('comment', 'Amount', 'original amount', 'type', 'mu', 'minimum', 'compartment', 'activity link', 'code', 'uncertainty', 'variable'))
                if k in old:
                    raise Skip('there')
                if p[-1] == 'production volume' and k == 'subtracted activity link volume':
                    unsure = True
                old[k] = c.choose('added', ('text', 2.5))
                shown.append(('add', p, k))
        c.state(repr(shown))
        c.outcome((judge(c, ds, unsure), unsure, len(shown)))
    return scenario


# ---- directories

U = '00000000-0000-0000-0000-00000000000%d'
CONFORMANT = '''<?xml version="1.0" encoding="utf-8"?>
<ecoSpold xmlns="http://www.EcoInvent.org/EcoSpold02"><activityDataset><activityDescription>
<activity id="{0}" activityNameId="{1}" type="1" specialActivityType="0"><activityName xml:lang="en">NAME</activityName></activity>
<classification classificationId="{2}"><classificationSystem xml:lang="en">ISIC rev.4 ecoinvent</classificationSystem><classificationValue xml:lang="en">1234</classificationValue></classification>
<geography geographyId="{3}"><shortname xml:lang="en">GLO</shortname></geography><technology technologyLevel="3"/>
<timePeriod startDate="2000-01-01" endDate="2010-12-31" isDataValidForEntirePeriod="true"/>
<macroEconomicScenario macroEconomicScenarioId="{4}"><name xml:lang="en">Business-as-Usual</name></macroEconomicScenario>
</activityDescription><flowData><intermediateExchange id="{5}" unitId="{6}" amount="1" intermediateExchangeId="{7}"><name xml:lang="en">x</name><unitName xml:lang="en">kg</unitName><outputGroup>0</outputGroup></intermediateExchange></flowData>
<modellingAndValidation><representativeness systemModelId="{9}"><systemModelName xml:lang="en">Undefined</systemModelName></representativeness></modellingAndValidation>
<administrativeInformation><dataEntryBy personId="{8}" personName="a" personEmail="a@b.ch"/><dataGeneratorAndPublication personId="{8}" personName="a" personEmail="a@b.ch" isCopyrightProtected="false" accessRestrictedTo="1"/><fileAttributes majorRelease="3" minorRelease="0" majorRevision="1" minorRevision="0"/></administrativeInformation></activityDataset></ecoSpold>'''.format(*[U % i for i in range(10)])
# name of the fault: (edit, in the internal format?, conformant to the schema?)
FAULTS = {
    'none': (lambda t: t, True, True),
    'child': (lambda t: t.replace('activityDataset>', 'childActivityDataset>'), True, None),      # child datasets should live in a namespace of their own: depends on libxml2
    'input group': (lambda t: t.replace('<outputGroup>0</outputGroup>', '<inputGroup>1</inputGroup>'), False, True),
    'stock': (lambda t: t.replace('<outputGroup>0</outputGroup>', '<outputGroup>5</outputGroup>'), False, True),
    'no class': (lambda t: t.replace('ISIC rev.4 ecoinvent', 'CPC'), False, True),
    'short id': (lambda t: t.replace('id="%s"' % (U % 0), 'id="short"'), True, False),
    'no name id': (lambda t: t.replace(' activityNameId="%s"' % (U % 1), ''), True, False),
    'unknown element': (lambda t: t.replace('<flowData>', '<flowData><thing/>'), None, False),
    'both': (lambda t: t.replace('ISIC rev.4 ecoinvent', 'CPC').replace('id="%s"' % (U % 0), 'id="short"'), False, False),
}
OWN = '''<?xml version="1.0"?><xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="http://www.EcoInvent.org/EcoSpold02" elementFormDefault="qualified" xmlns="http://www.EcoInvent.org/EcoSpold02">
<xs:element name="ecoSpold"><xs:complexType><xs:sequence><xs:element name="%s" maxOccurs="unbounded"><xs:complexType><xs:sequence><xs:any processContents="skip" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element></xs:schema>'''


class Inside(Scratch):
    """A scratch directory as the current one."""
    def __enter__(self):
        self.old = os.getcwd()
        p = super().__enter__()
        os.chdir(p)
        return p

    def __exit__(self, *a):
        os.chdir(self.old)
        super().__exit__(*a)


def said(c, f, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        got = call(c, f, *args)
    return got, out.getvalue()


NAMES = ('a.spold', 'b.SPOLD', 'Zürich.spold')


def files(c, where, faults):
    """Up to three files with faults, and things which are not ecospold2 files."""
    os.mkdir(where)
    chosen = {}
    for i in range(c.choose('files', (1, 2, 3, 0))):
        f = c.choose('fault', faults, dev=i > 1)
        chosen[NAMES[i]] = f
        write(where, NAMES[i], FAULTS[f][0](CONFORMANT).replace('NAME', 'activity %d' % i))
    if c.flag('other files', dev=True):
        write(where, 'note.txt', 'nothing to see')
        write(where, 'x.xml', '<broken')
    return chosen


def internal(c):
    """The report on a directory: no errors exactly if there are none; what is logged is wrong."""
    runs.free()
    with Inside() as home:
        where = os.path.join(home, 'data')
        chosen = files(c, where, [f for f in FAULTS if FAULTS[f][1] is not None])
        c.state(repr(chosen))
        bad = sorted(n for n, f in chosen.items() if not FAULTS[f][1])
        arg = c.choose('path', ('absolute', 'relative'), dev=True)
        got, text = said(c, validate_directory, where if arg == 'absolute' else 'data')
        c.expect(not isinstance(got, Raised), lambda: repr(got))
        log = [f for f in os.listdir(home) if f != 'data']
        c.expect(sorted(os.listdir(where)) == sorted(list(chosen) + (['note.txt', 'x.xml'] if os.path.exists(os.path.join(where, 'x.xml')) else [])), 'input directory changed')
        if bad:
            m = re.search(r'(\d+) errors? found', text)
            c.expect(m and 'No errors' not in text and 1 <= int(m.group(1)) <= len(bad), lambda: '%d invalid datasets reported as %r' % (len(bad), text))
            c.expect(len(log) == 1 and log[0] in text, lambda: 'logs %r, said %r' % (log, text))
            with open(log[0], encoding='utf-8') as f:
                logged = f.read()
            there = sorted(n for n in chosen if os.path.join(where, n) in logged)
            c.expect(there and set(there) <= set(bad), lambda: 'logged %r, invalid are %r' % (there, bad))
            kinds = {'class' if FAULTS_KIND[chosen[n]] == 'class' else 'exchange' for n in bad}
            have = {'class' if FAULTS_KIND[chosen[n]] == 'class' else 'exchange' for n in there}
            c.expect(have == kinds, lambda: 'logged %r: no example of some of %r' % (there, kinds))
        else:
            c.expect('No errors found' in text and not log, lambda: 'valid data reported as %r, logs %r' % (text, log))
        c.outcome((len(bad), len(chosen)))


FAULTS_KIND = {'input group': 'exchange', 'stock': 'exchange', 'no class': 'class', 'both': 'class'}


def xsd(c):
    """The report on the files which do not conform to a schema lists exactly these."""
    with Inside() as home:
        where = os.path.join(home, 'data')
        chosen = files(c, where, tuple(FAULTS))
        schema = c.choose('schema', ('ecospold2', 'own for datasets', 'own for child datasets'))
        c.state((repr(chosen), schema))
        if schema == 'ecospold2':
            if 'child' in chosen.values():
                raise Skip('not judged')
            path, bad = os.path.join(data_dir, 'EcoSpold02.xsd'), sorted(n for n, f in chosen.items() if not FAULTS[f][2])
        else:
            child = 'child' in schema
            path = write(home, 'own.xsd', OWN % ('childActivityDataset' if child else 'activityDataset'))
            bad = sorted(n for n, f in chosen.items() if (f == 'child') != child)
        missing = c.choose('missing', (None, 'directory', 'schema'), dev=True)
        got, text = said(c, validate_directory_against_xsd, where + ('x' if missing == 'directory' else ''), path + ('x' if missing == 'schema' else ''))
        if missing:
            c.expect(isinstance(got, Raised) and 'valid' not in text.lower().replace('validating', ''), lambda: '%s missing: %r %s' % (missing, got, text))
            c.outcome('missing')
            return
        c.expect(not isinstance(got, Raised), lambda: repr(got))
        listed = sorted(n for n in NAMES if "'%s'" % n in text)
        c.expect(listed == bad, lambda: 'listed %r instead of %r' % (listed, bad))
        c.expect(('All files valid' in text) == (not bad) and ('did not validate' in text) == bool(bad), lambda: '%r reported as %s' % (bad, text))
        c.outcome(tuple(bad))


def run(rep, tier):
    big = tier == 'thorough'
    rep.add('extracted', explore('extracted', extracted, bound=3 if big else 2), 'all flow groups, <=%d deviations in all other features of ecospold2 files' % (3 if big else 2))
    rep.add('one change', explore('one change', mutated(1)), 'a dataset with all features and one change at any place')
    if big:
        rep.add('two changes', explore('two changes', mutated(2)), 'two changes at any two places')
    rep.add('directories', explore('directories', internal, bound=1 if big else 0, sleepy=True), '<=3 files with any fault each: internal format')
    rep.add('schemas', explore('schemas', xsd, bound=1 if big else 0), '<=3 files with any fault each: three schemas')
    rep.assume('pedigree matrices with some labels and parameters with some fields missing are not judged (documented without required=True)')
