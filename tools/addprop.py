"""helper: add(file, id, title, statement, over, text, why, files, mechanism, observe, **check)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))


def add(file, id, title, statement, over, text, why, mechanism, observe, **check):
    p = os.path.join(HERE, 'props', file + '.json')
    data = json.load(open(p, encoding='utf-8')) if os.path.exists(p) else []
    data = [x for x in data if x['id'] != id]
    mech = [{'name': n, 'where': w} for n, w in mechanism]
    data.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                 'why_tests_cant': why, 'anchors': {'files': sorted({w for _, w in mechanism}), 'mechanism': mech, 'observe_at': observe, 'hook_needed': None},
                 'check': dict({'level': 'model_checking'}, **check)})
    data.sort(key=lambda x: x['id'])
    json.dump(data, open(p, 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
    open(p, 'a').write('\n')
