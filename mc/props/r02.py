"""R02 -- logs and report tell what each function did, under that function."""
import ast
import json
import logging
import os
import pathlib
import re
import webbrowser
from copy import deepcopy
from unittest import mock

from ..engine import Skip, explore
from ..ref import runs
from ..ref.check import Raised, call
from ..gen import dataset, exchange, product
from ..world import act, group, market, need
from . import l09

from ocelot.configuration import consequential_config, cutoff_config, cutoff_config_ecoinvent_row
from ocelot.model import system_model
from ocelot.transformations.consequential.technology_levels import log_conflicting_technology_levels, switch_undefined_to_current
from ocelot.transformations.locations.rest_of_world import drop_zero_pv_row_datasets
from ocelot.transformations.parameterization import recalculate_all_parameterized_datasets
from ocelot.utils import get_function_meta

report = logging.getLogger('ocelot')
detailed = logging.getLogger('ocelot-detailed')
TEXTS = {'plain': 'row', 'quotes': 'a "quoted" \\ one', 'unicode': 'Zürich – 水 \u2028 end', 'lines': 'two\nlines', 'braces': '{{ row }} {% x'}


def step(name, table, entries, drop):
    def f(data):
        for kind, ds, text in entries:
            if kind == 'table':
                report.info({'type': 'table element', 'data': [text, 'second ' + name]})
            elif kind == 'list':
                report.info({'type': 'list element', 'data': text})
            else:
                detailed.info({'ds': data[ds] if len(data) > ds else {}, 'message': text, 'function': name})
        return data[drop:]
    f.__name__ = name
    f.__doc__ = 'Describes %s.' % name
    if table:
        f.__table__ = {'title': 'Title of %s' % name, 'columns': ['one', 'two']}
    return f


def marker(i, j, style):
    return 'entry-%d-%d %s' % (i, j, TEXTS[style])


def logged(c):
    n = c.choose('functions', (1, 2, 3))
    steps, plan = [], []
    for i in range(n):
        name = 'step_%d' % i
        table = c.choose('element', ('table', 'list'))
        k = c.choose('entries', (0, 1, 2))
        style = c.choose('text', tuple(TEXTS), dev=True)
        entries = [(table, 0, marker(i, j, style)) for j in range(k)]
        entries += [('detail', c.choose('dataset', (0, 1), dev=True), marker(i, 9, style))] if c.flag('detailed', dev=True) else []
        drop = c.choose('drops', (0, 1), dev=True)
        steps.append(step(name, table == 'table', entries, drop))
        plan.append((name, table, entries, drop))
    if c.flag('same function twice', dev=True):
        steps.append(steps[0])
        plan.append(plan[0])
    src = runs.source()
    place = runs.Place()
    try:
        show = c.flag('show', dev=True)
        opened = []
        with mock.patch.object(webbrowser, 'open_new_tab', opened.append):
            got = call(c, system_model, src.path, steps, show, True)
        c.expect(isinstance(got, tuple), lambda: repr(got))
        out, data = got
        c.expect(opened == ([pathlib.Path(out.directory).joinpath('report.html').as_uri()] if show else []), lambda: 'browser opened with %r' % opened)
        c.expect(place.dirs() == [out.report_id] and os.path.realpath(out.directory) == os.path.realpath(os.path.join(place.path, out.report_id)), 'output is elsewhere')
        # the log is the history of the run
        files = [os.path.basename(f) for f, _ in src.expected()]
        count = len(files)
        want, details = [('report start', count)], []
        for i, (name, table, entries, drop) in enumerate(plan):
            want.append(('function start', i, name, count))
            for kind, ds, text in entries:
                if kind == 'detail':
                    details.append((name, text, files[ds] if len(files) > ds else ''))
                else:
                    want.append((kind + ' element', [text, 'second ' + name] if kind == 'table' else text))
            count = max(0, count - drop)
            files = files[drop:]
            want.append(('function end', i, name, count))
        want.append(('report end',))
        lines = runs.log_lines(out.directory)
        have = []
        for x in lines:
            t = x['type']
            have.append({'report start': lambda: (t, x['count']), 'report end': lambda: (t,), 'table element': lambda: (t, x['data']),
                         'list element': lambda: (t, x['data'])}.get(t, lambda: (t, x['index'], x['name'], x['count']))())
        c.expect(have == want, lambda: 'log is %r instead of %r' % (have, want))
        c.expect(lines[0]['uuid'] == out.report_id, 'report id')
        times = [x['time'] for x in lines]
        c.expect(times == sorted(times), 'time goes backwards')
        have = [(x['function'], x['message'], x['dataset']['filename']) for x in runs.log_lines(out.directory, 'detailed.log.json')]
        c.expect(have == details, lambda: 'detailed log is %r instead of %r' % (have, details))
        # the report has it all, in the section of the function
        with open(os.path.join(out.directory, 'report.html'), encoding='utf-8') as f:
            html = f.read()
        at, last = [], len(html)
        for i in range(len(plan) - 1, -1, -1):
            last = html.rfind(plan[i][0], 0, last)
            c.expect(last >= 0, lambda: '%s is not in the report' % plan[i][0])
            at.append(last)
        at = at[::-1] + [len(html)]
        # headings come before descriptions and titles, which have the name too
        heads = [m.start() for m in re.finditer(r'<h2 id="function\d+"', html)]
        if len(heads) == len(plan):
            at = heads + [len(html)]
        for i, (name, table, entries, drop) in enumerate(plan):
            part = html[at[i]:at[i + 1]]
            mine = [t for k, _, t in entries if k != 'detail']
            found = re.findall(r'entry-\d+-\d+', part)
            c.expect(found == [t.split(' ')[0] for t in mine], lambda: 'section %d has %r instead of %r' % (i, found, mine))
            c.expect(all(t in part for t in mine), lambda: 'texts %r are changed' % mine)
            c.expect(('Title of ' + name in part) == (table == 'table'), 'title of the table')
            c.expect('Describes' in part, 'description')
            if table == 'table':
                rows = re.findall(r'<tr>(.*?)</tr>', part, re.S)
                c.expect(len(rows) == len(mine) + 1, lambda: '%d rows for %d entries' % (len(rows) - 1, len(mine)))
            after = [x[3] for x in want if x[0] == 'function end'][i]
            c.expect(re.findall(r'Number of datasets after application: (.*?)<', part) == [str(after)], lambda: '%s: not %d datasets' % (name, after))
            took = [x['time'] for x in lines if x['type'] in ('function start', 'function end')][2 * i:2 * i + 2]
            c.expect(re.findall(r'Total time: (.*?) seconds', part) == [str(int(took[1] - took[0]))], 'time of function')
            if table == 'table':
                c.expect(re.findall(r'<th[^>]*>(.*?)</th>', part) == ['one', 'two'], 'columns')
        # the overview
        c.expect(out.report_id in html, 'report id')
        c.expect(re.findall(r'Input datasets: (.*?)<', html) == [str(want[0][1])], 'input datasets')
        c.expect(re.findall(r'Time: (.*?) seconds</h2>', html) == ['%.1f' % (times[-1] - times[0])], 'elapsed time')
        links = re.findall(r'<a class="sidebar-link" href="#(.*?)">(.*?)</a>', html)
        ids = re.findall(r'<h2 id="(function\d+)"', html)
        c.expect([n for _, n in links] == [p[0] for p in plan] and [i for i, _ in links] == ids and len(set(ids)) == len(ids), lambda: 'links %r to %r' % (links, ids))
        charts = [(ast.literal_eval(a), ast.literal_eval(b)) for a, b in re.findall(r'labels: (\[.*?\]),\s*series: \[\s*(\[.*?\])', html, re.S)]
        c.expect(len(charts) == 2 and all(len(a) == len(b) for a, b in charts), lambda: 'charts %r' % charts)
        c.expect(list(charts[1][1]) == [x[-1] for x in want if x[0] in ('report start', 'function end')], lambda: 'chart of counts %r' % (charts[1],))
        marks = [x['time'] for x in lines if x['type'] in ('report start', 'function end', 'report end')]
        c.expect(len(charts[0][1]) == len(marks) and all(abs(a - (b - marks[0])) < 1e-6 for a, b in zip(charts[0][1], marks)), lambda: 'chart of times %r' % (charts[0],))
        c.expect(all(os.path.exists(os.path.join(out.directory, f)) for f in re.findall(r'(?:href|src)="(assets/.*?)"', html)), 'files of the report')
        c.state(repr(plan))
        c.outcome((repr(want), len(details)))
    finally:
        place.close()


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


def observed(f, data):
    """Run f with the loggers of a model run; what was logged to them (and to the root logger)."""
    caps = {n: Capture() for n in ('ocelot', 'ocelot-detailed', None)}
    old = {}
    for n, h in caps.items():
        log = logging.getLogger(n)
        old[n] = (log.level, log.propagate)
        log.addHandler(h)
        log.setLevel(logging.INFO)
        if n:
            log.propagate = False
    try:
        return f(data), {n: [r.msg for r in h.records] for n, h in caps.items()}
    finally:
        for n, h in caps.items():
            log = logging.getLogger(n)
            log.removeHandler(h)
            log.setLevel(old[n][0])
            if n:
                log.propagate = old[n][1]


def snapshot(data):
    """What can be deleted: datasets, their exchanges, hard links and formulas."""
    out = {}
    for d in data:
        out.setdefault((d.get('id'), d['name']), []).append((
            len(d['exchanges']), sum(bool(e.get('activity link')) for e in d['exchanges']),
            sum('formula' in o for o in d['exchanges'] + d['parameters'])))
    return {k: (len(v), [sum(x) for x in zip(*v)]) for k, v in out.items()}


def deleted(before, after):
    """Names of the datasets which lost something."""
    return {k[1] for k, (n, amounts) in before.items()
            if k not in after or after[k][0] < n or any(y < x for x, y in zip(amounts, after[k][1]))}


def amounts(data):
    out = {}
    for d in data:
        out.setdefault((d.get('id'), d['name']), []).append(tuple(e['amount'] for e in d['exchanges']))
    return {k: sorted(v) for k, v in out.items()}


CHANGES = ('adjust_market_signs_for_allocatable_products', 'flip_non_allocatable_byproducts', 'normalize_reference_production_amount')
DELETES = ('drop_zero_pv_row_datasets', 'delete_activity_links_to_constrained_markets', 'delete_global_with_zero_pv_when_regional_present', 'delete_unparsable_formulas',
           'delete_whitelisted_zero_pv_market_datsets', 'drop_rp_activity_links', 'drop_zero_amount_activity_links', 'fix_specific_ecoinvent_issues',
           'log_and_delete_unlinked_exchanges', 'remove_consequential_exchanges')


def follow_rows(c, config, data, seen=None):
    c.state(repr(data))
    rows = {}
    for i, f in enumerate(config):
        meta = get_function_meta(f)
        before, numbers = snapshot(data), amounts(data)
        try:
            data, logs = observed(f, data)
        except Exception as e:
            c.outcome((meta['name'], type(e).__name__))
            break
        c.step()
        for m in logs['ocelot']:
            c.expect(isinstance(m, dict) and m.get('type') in ('table element', 'list element'), lambda: '%s logs %r' % (meta['name'], m))
            back = json.loads(json.dumps(m))
            if m['type'] == 'table element':
                c.expect(bool(meta['table']), lambda: '%s logs table rows without a table' % meta['name'])
                c.expect(len(back['data']) == len(meta['table']['columns']), lambda: '%s logs %r for columns %r' % (meta['name'], m['data'], meta['table']['columns']))
            else:
                c.expect(not meta['table'], lambda: '%s logs list elements beside a table' % meta['name'])
            rows[meta['name']] = rows.get(meta['name'], 0) + 1
            if seen is not None:
                seen.setdefault(meta['name'], []).append(m)
        if not (meta['name'].endswith('_allocation') or meta['name'].startswith('combined_production')):
            # allocation replaces its datasets, everything else says what it deletes
            gone = deleted(before, snapshot(data))
            text = [str(m['data']) for m in logs['ocelot']]
            for name in gone:
                c.expect(any(name in t for t in text), lambda: '%s deletes something of %s without a row: %r' % (meta['name'], name, text))
            if meta['name'] in CHANGES:
                now = amounts(data)
                other = {k[1] for k in numbers if now.get(k) != numbers[k]}
                for name in other:
                    c.expect(any(name in t for t in text), lambda: '%s changes amounts of %s without a row: %r' % (meta['name'], name, text))
            c.expect(gone or not text or meta['name'] not in DELETES, lambda: '%s deletes nothing but logs %r' % (meta['name'], text))
        for m in logs['ocelot-detailed']:
            c.expect(isinstance(m['ds'], dict) and isinstance(m['message'], str) and isinstance(m['function'], str), lambda: '%s logs %r' % (meta['name'], m))
    c.outcome(tuple(sorted(rows.items())))


def shipped(config_options):
    """The functions of the shipped configurations log what the report can show."""
    def scenario(c):
        config = c.choose('configuration', config_options)
        data = l09.database(c, False)
        if config is consequential_config:
            for d in data:
                d['technology level'] = c.choose('level', ('current', 'modern'), dev=True)
        follow_rows(c, config, data)
    return scenario


def rich(c):
    """Databases which make the other functions log something: one reason each."""
    config = c.choose('configuration', (cutoff_config, cutoff_config_ecoinvent_row, consequential_config))
    what = c.choose('reason', REASONS)
    mate = c.choose('and', REASONS, dev=True)
    data = [act('power', 'electricity', 'GLO', pv=40., inputs=[exchange('gas', 'from environment', 'gas', 4.)], id='power'),
            market('electricity', 'GLO'), market('steel', 'GLO')]
    steel = act('steel making', 'steel', 'GLO', pv=50., inputs=[need('electricity', 3.)], id='steel', amount=2.)
    data.append(steel)
    steel['exchanges'][1]['id'] = UUID
    for w in sorted({what, mate} - {None}):
        if w in FORMULAS:
            f = FORMULAS[w]
            steel['parameters'] += [{'id': 'p', 'name': 'p', 'variable': 'lambda' if w == 'reserved variable' else 'p', 'amount': 2., 'unit': 'd'},
                                    {'id': 'q', 'name': 'q', 'variable': 'q', 'amount': 2., 'unit': 'd', 'formula': f}]
        elif w == 'implicit reference':
            steel['parameters'].append({'id': 'q', 'name': 'q', 'variable': 'q', 'amount': 2., 'unit': 'd', 'formula': "Ref('%s') * 2" % UUID})
        elif w == 'implicit property':
            steel['exchanges'][1]['properties'] = [{'id': UUID[:-1] + '0', 'name': 'pp', 'amount': 1., 'unit': 'kg'}]
            steel['parameters'].append({'id': 'q', 'name': 'q', 'variable': 'q', 'amount': 2., 'unit': 'd', 'formula': "Ref('%s', '%s') * 2" % (UUID, UUID[:-1] + '0')})
        elif w == 'implicit volume':
            steel['exchanges'][0]['id'], steel['exchanges'][1]['id'] = UUID, 'other'
            steel['parameters'].append({'id': 'q', 'name': 'q', 'variable': 'q', 'amount': 2., 'unit': 'd', 'formula': "Ref('%s', 'ProductionVolume') * 2" % UUID})
        elif w == 'volume formula':
            steel['exchanges'][0]['production volume'].update(formula='2 * 25', variable='APV')
        elif w == 'bad formula':
            steel['name'] = 'benzene chlorination'
            steel['exchanges'][1]['formula'] = "UnitConversion(152000000, 'pound avoirdupois', 'kg')"
        elif w == 'refinery':
            steel['name'] = 'petroleum refinery operation'
            steel['exchanges'].append(need('refinery gas', 0.))
        elif w == 'consequential exchange':
            steel['exchanges'].append(need('electricity', 9., id='cq', properties=[{'name': 'consequential', 'amount': 1., 'id': 'c', 'unit': 'd'}]))
        elif w == 'zero consequential':
            steel['exchanges'].append(need('electricity', 0., id='cz', properties=[{'name': 'consequential', 'amount': 1., 'id': 'c', 'unit': 'd'}]))
        elif w == 'zero link':
            steel['exchanges'].append(need('electricity', 0., id='zl', **{'activity link': 'power'}))
        elif w == 'product link':
            steel['exchanges'][0]['activity link'] = 'm/steel/GLO'
        elif w == 'parent link':
            data.append(market('electricity', 'CH', parent='gone', inputs=[need('electricity', .125, id='pl', **{'activity link': 'gone'})]))
        elif w == 'unresolved link':
            steel['exchanges'].append(need('heat', 1., id='ul', **{'activity link': 'power'}))
            data.append(market('heat', 'GLO'))
        elif w == 'constrained market':
            data[1]['exchanges'].append(product('cx', 'electricity', -1., type='byproduct', classification='allocatable product', pv=0.,
                                                **{'activity link': 'steel', 'conditional exchange': True}))
        elif w == 'hard link':
            steel['exchanges'].append(need('electricity', 1., id='cl', **{'activity link': 'power'}))
        elif w == 'whitelist':
            data.append(market('nitro-compound', 'GLO', pv=0.))
        elif w == 'confidential':
            data.append(act('latex production', 'latex', 'GLO', pv=0.))
        elif w == 'no market':
            steel['exchanges'].append(need('nothing'))
            data += [market('nothing', 'CH', pv=0.), market('nothing', 'FR', pv=0.)]
        elif w == 'no volume in row':
            data.append(market('electricity', 'CH', pv=3.))
            data.append(act('other power', 'electricity', 'CH', pv=4.))
            data[0]['exchanges'][0]['production volume']['amount'] = 0.
        elif w == 'zero row activity':
            data.append(act('power', 'electricity', 'CH', pv=4., id='power ch'))
            data[0]['exchanges'][0]['production volume']['amount'] = 0.
        elif w == 'groups':
            data += [market('electricity', 'CH', pv=3.), act('power', 'electricity', 'CH', pv=4., id='power ch'), group('electricity', 'GLO'), group('electricity', 'RER')]
        elif w == 'recycling':
            steel['exchanges'].append(product('scrap', 'scrap', .5, type='byproduct', classification='recyclable', pv=1.))
            data += [market('scrap', 'GLO', amount=-1., cls='recyclable'), dataset('recycle', 'recycling', 'GLO', exchanges=[
                product('rp', 'scrap', -1., pv=6., classification='recyclable'), need('scrap', 1., id='x'),
                product('st', 'steel', 0.5, pv=0., type='byproduct', classification='allocatable product', price=2.)])]
        elif w == 'combined with by-product':
            data.append(dataset('comb', 'combined', 'GLO', exchanges=[
                product('e', 'electricity', 2., pv=4., classification='allocatable product', price=1., variable='el'),
                product('s', 'steel', 1., pv=4., classification='allocatable product', price=1., variable='st'),
                product('h', 'heat', 3., pv=4., type='byproduct', classification='allocatable product', price=1.),
                exchange('g', 'from environment', 'gas', 3., formula='el + st')]))
            data.append(market('heat', 'GLO'))
        elif w == 'waste treatment':
            data.append(dataset('burn', 'burning', 'GLO', exchanges=[
                product('w', 'waste', -4., pv=4., classification='waste'),
                product('h', 'electricity', 3., pv=4., type='byproduct', classification='allocatable product', price=1.)]))
            data.append(market('waste', 'GLO', amount=-1., cls='waste'))
        elif w == 'economic':
            steel['exchanges'].append(product('h', 'electricity', 3., pv=4., type='byproduct', classification='allocatable product', price=1.))
    follow_rows(c, config, data)


def optional(c):
    """Functions users can add to a configuration: technology levels, recalculation."""
    data = []
    for i in range(c.choose('activities', (1, 2, 3))):
        kind = c.choose('kind', ('transforming activity', 'market activity'), dev=True)
        prod = c.choose('product', ('steel', 'heat'))
        data.append(act('a%d' % i, prod, 'GLO', type=kind, **{'technology level': c.choose('level', ('undefined', 'current', 'new')), 'reference product': prod}))
    flawed = c.choose('formulas', ('none', 'good', 'circular'), dev=True)
    if flawed != 'none':
        data[0]['parameters'] += [{'id': 'p', 'name': 'p', 'variable': 'p', 'amount': 2., 'unit': 'd', 'formula': '2 * q'},
                                  {'id': 'q', 'name': 'q', 'variable': 'q', 'amount': 1., 'unit': 'd', 'formula': 'p' if flawed == 'circular' else '1'}]
    empty = c.choose('empty markets', ((), ('RoW',), ('RoW', 'CH'), ('GLO',)), dev=True)
    data += [market('heat', l, pv=0., **{'reference product': 'heat', 'technology level': 'current'}) for l in empty]
    before = deepcopy(data)
    seen = {}
    follow_rows(c, OPTIONAL, data, seen)
    got = seen.get('drop_zero_pv_row_datasets', [])
    c.expect([r['data'][0] for r in got] == [d['name'] for d in before if d['location'] == 'RoW'], lambda: 'dropped: %r' % got)
    making = [d for d in before if d['type'] == 'transforming activity']
    mixed = sorted({d['reference product'] for d in making if {'undefined', 'current'} <= {x['technology level'] for x in making if x['reference product'] == d['reference product']}})
    got = seen.get('log_conflicting_technology_levels', [])
    c.expect(sorted(r['data'][0] for r in got) == mixed, lambda: 'conflicts of %r: %r' % (mixed, got))
    got = seen.get('switch_undefined_to_current', [])
    c.expect([r['data'][0] for r in got] == [d['name'] for d in making if d['technology level'] == 'undefined'], lambda: 'switched: %r' % got)
    for old, new in zip(before, data):
        want = 'current' if old in making and old['technology level'] == 'undefined' else old['technology level']
        c.expect(new['technology level'] == want, lambda: '%s is %r, was %r' % (old['name'], new['technology level'], old['technology level']))
    c.expect(bool(seen.get('recalculate_all_parameterized_datasets')) == (flawed == 'circular'), lambda: 'recalculation of %s formulas logs %r' % (flawed, seen))


OPTIONAL = (log_conflicting_technology_levels, switch_undefined_to_current, recalculate_all_parameterized_datasets, drop_zero_pv_row_datasets)
UUID = '01234567-89ab-cdef-0123-456789abcdef'
FORMULAS = {'reserved word': 'lambda + 1', 'reserved variable': 'lambda + 1', 'reserved case': 'YIELD * 2', 'if': 'if(p>1;2;3)', 'power': 'power(p;2)',
            'percent': 'p * 3%', 'unparsable': 'p + * 3'}
REASONS = (None, 'implicit reference', 'implicit property', 'implicit volume', 'volume formula', 'bad formula', 'refinery', 'consequential exchange', 'zero consequential', 'zero link',
           'product link', 'parent link', 'unresolved link', 'constrained market', 'hard link', 'whitelist', 'confidential', 'no market', 'no volume in row', 'zero row activity', 'groups',
           'recycling', 'combined with by-product', 'waste treatment', 'economic') + tuple(FORMULAS)


def run(rep, tier):
    big = tier == 'thorough'
    runs.source()
    rep.add('logged runs', explore('logged runs', logged, bound=2 if big else 1), 'runs of 1-3 functions with 0-2 entries each; <=%d deviations' % (2 if big else 1))
    rep.add('shipped functions', explore('shipped functions', shipped((cutoff_config, cutoff_config_ecoinvent_row, consequential_config) if big else (cutoff_config, consequential_config)), bound=1 if big else 0),
            'all functions of the shipped configurations on steel, heat and power databases')
    rep.add('optional functions', explore('optional functions', optional, bound=1), 'technology levels of 1-3 activities, good and circular formulas')
    rep.add('reasons to log', explore('reasons to log', rich, bound=1), 'each of %d reasons to log something, and all pairs' % len(REASONS))
