#!/opt/venv/bin/python
"""Generates /verif/DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def text(name):
    with open(os.path.join(HERE, name), encoding='utf-8') as f:
        return f.read()


def main():
    props = [p for f in glob.glob(os.path.join(HERE, 'props', '*.json')) for p in json.load(open(f, encoding='utf-8'))]
    oracles = json.loads(text('design_oracles.json'))
    out = [text('design_head.md')]
    for p in sorted(props, key=lambda p: p['id']):
        out.append('### %s %s\n\n' % (p['id'], p['title']))
        out.append('*Specified.* %s\n\n' % p['statement'])
        out.append('*Oracle.* %s\n\n' % oracles[p['id']])
        e = json.load(open(os.path.join(V, 'evidence', p['id'] + '.json'), encoding='utf-8'))
        assert e['tier'] == 'quick', p['id']
        out.append('*Enumerated* (quick tier):\n')
        for n, s in e['coverage']['scenarios'].items():
            assert s['complete'], (p['id'], n)
            out.append('- %s: %s -- %d executions, %d states\n' % (n, s['bounds'], s['executions'], s['states']))
        out.append('\n*Cost.* about %d s. ' % max(1, round(e['wall_s'])))
        if e.get('assumptions'):
            out.append('*Assumed.* %s. ' % '; '.join(e['assumptions']))
        out.append('*Why not by tests.* %s\n\n' % p['why_tests_cant'])
    after = ('A05-suffix-everywhere', 'S03-errors-exit', 'L09-one-configuration-drifts', 'L01-waste-in-one-group', 'P03-zero-volume-stays', 'S02-claimed-cache', 'L11-first-formula-only', 'R02-zero-amounts-unreported')
    rows = ['| bug | property | needs | caught |\n|---|---|---|---|\n']
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        with open(os.path.join(V, 'seeded', d, 'meta.json'), encoding='utf-8') as f:
            m = json.load(f)
        rows.append('| %s | %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'), m.get('caught', 'after' if d in after else 'first')))
    out.append(text('design_tail.md').replace('BUGTABLE\n', ''.join(rows)))
    with open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8') as f:
        f.write(''.join(out))


main()
