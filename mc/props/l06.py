"""L06 -- every input is linked to the right markets and split by their volumes."""
from ..engine import Skip, explore
from ..gen import UNCERTAINTIES, exchange, product
from ..ref import link
from ..ref.common import close
from ..world import act, group, market, need
from .l03 import BIG, run_link


def supply(c, ml, gl, zero=True):
    data, pv = [], iter((3., 5., 7., 11., 13., 17., 19.))
    for l in ml:
        v = 100. if l == 'GLO' else next(pv)
        if zero and c.flag('no volume in ' + l, dev=True):
            v = 0.
        data += [market('a', l), act('making', 'a', l, pv=v)]
    return data + [group('a', l) for l in gl]


def observe(c, before, got):
    """Conservation of every input, computed from the result alone."""
    for d in got:
        src = before.get(d['id'])
        if not src:
            continue
        for e in src:
            parts = [x for x in d['exchanges'] if x.get('id') == e['id'] and x['type'] == 'from technosphere']
            c.expect(not parts or close(sum(x['amount'] for x in parts), e['amount']),
                     lambda: 'input %s of %s: %r of %r' % (e['name'], d['name'], sum(x['amount'] for x in parts), e['amount']))
            c.expect(all(x['name'] == e['name'] for x in parts), 'renamed input')
            c.expect(len({x['code'] for x in parts}) == len(parts), 'two parts from one supplier')
    codes = {d['code']: (d['name'], d['location']) for d in got}
    c.outcome(sorted((d['id'], sorted((codes[e['code']], round(e['amount'], 9)) for e in d['exchanges']
              if e['type'] == 'from technosphere')) for d in got if d['id'] in before))


def scenario_for(markets, groups, consumers, wide):
    def scenario(c):
        ml, gl = c.subset('market in', markets), c.subset('group in', groups)
        data = supply(c, ml, gl)
        where = c.choose('consumer', consumers)
        amount = c.choose('amount', (2., -0.5, 1e-12), dev=True)
        unc = c.choose('uncertainty', UNCERTAINTIES, dev=True)
        kind = c.choose('kind', ('activity', 'market'), dev=True)
        ins = [need('a', amount, unc, formula='x', properties=[{'name': 'dry mass', 'amount': 1.}])]
        extra = c.choose('extra', ('', 'second input', 'emission', 'linked', 'refinery gas', 'missing', 'byproduct', 'other technology'), dev=True)
        if extra == 'second input':
            ins.append(need('a', 0.25, 'lognormal', id='again'))
        elif extra == 'emission':
            ins.append(exchange('em', 'to environment', 'a', 3.))
        elif extra == 'linked':
            ins.append(need('a', 4., id='hard', **{'activity link': 'making/a/' + (ml[0] if ml else 'CH')}))
            if not ml:
                raise Skip
        elif extra == 'refinery gas':
            ins.append(need('refinery gas', 4.))
        elif extra == 'missing':
            ins.append(need('nothing', 4.))
        elif extra == 'byproduct':
            ins.append(product('by', 'a', 2., classification='waste', type='byproduct'))
        cons = []
        for l in where:
            if kind == 'activity':
                cons.append(act('using', 'b', l, pv=50. if l == 'GLO' else 2., inputs=[dict(x) for x in ins], id='c' + l))
            else:
                cons.append(market('b', l, inputs=[dict(x) for x in ins], id='c' + l))
        if extra == 'other technology':
            # the same activity makes something else, everywhere
            cons.append(act('using', 'z', 'GLO', pv=1.))
        before = {d['id']: [dict(e) for e in d['exchanges'] if e['type'] == 'from technosphere'] for d in cons}
        data = cons + data if c.flag('consumers first', dev=True) else data + cons
        expected, got = run_link(c, data)
        if got:
            observe(c, before, got)
    return scenario


def run(rep, tier):
    big = tier == 'thorough'
    places = (('CH',), ('GLO',), ('CH', 'GLO'), ('RER',), ('DE', 'GLO'))
    if big:
        places += (('NO',), ('CA',), ('RER', 'GLO'), ('Europe without Switzerland', 'CH'), ('ENTSO-E',), ('US', 'CA', 'GLO'))
    m = ('GLO', 'CH', 'DE', 'CA') + (('NO', 'US') if big else ())
    g = ('GLO', 'RER', 'WEU') + (('Europe without Switzerland', 'RNA') if big else ())
    rep.add('regions', explore('regions', scenario_for(m, g, places, big), bound=1),
            'all sets of markets over %r and groups over %r, consumers in %r, <=1 deviation' % (m, g, places))
    rep.add('wide markets', explore('wide markets', scenario_for(
        ('GLO', 'RER', 'NAFTA') + (('RAS', 'RLA') if big else ()), ('RER', 'GLO'), places + (('Canada without Quebec',), ('AU', 'GLO')), big), bound=1),
        'continental markets, small consumers')
