#!/opt/venv/bin/python
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props/*.json.

Only properties that have a check module are claimed."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
NOTE = ("bounded: complete enumeration of the stated choice space on the real code of /repo's working tree; "
        "inputs outside the alphabet are not covered; trusts CPython and the reference model in /verif/mc/ref")


def main():
    props = []
    for f in sorted(glob.glob(os.path.join(HERE, 'props', '*.json'))):
        with open(f, encoding='utf-8') as h:
            props += json.load(h)
    props.sort(key=lambda p: p['id'])
    assert len({p['id'] for p in props}) == len(props)
    checks, na = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as out:
        for p in props:
            meta = p.pop('check', {})
            assert len(p['title']) <= 80, p['title']
            if meta.get('not_applicable'):
                na.append({'property': p['id'], 'reason': meta['not_applicable']})
            else:
                assert os.path.exists(os.path.join(VERIF, 'mc', 'props', p['id'].lower() + '.py')), p['id']
                checks.append({
                    'property': p['id'],
                    'quick_cmd': './check.sh ' + p['id'],
                    'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                    'technique': meta.get('technique', 'explicit-state enumeration of the real code against a reference model'),
                    'level': meta.get('level', 'model_checking'),
                    'level_note': meta.get('note', NOTE),
                })
            out.write(json.dumps(p, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': "/opt/venv/bin/python -B -W ignore -c 'import mc.engine, mc.report, mc.run'",
        'hooks': {'guard': 'OCELOT_MC', 'enable': 'none needed: no instrumentation was added to /repo; the checks import it as it is',
                  'source_commits': []},
        'checks': checks,
        'not_applicable': na,
        'notes': 'All checks run ./check.sh ID, which explores the real code imported from /repo. See DESIGN.md.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as out:
        json.dump(manifest, out, indent=1, ensure_ascii=False)
        out.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
