"""Evidence, violations, replays and the known-findings file."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def known_signatures(prop):
    """Signatures listed as known (not fixed) for this property."""
    out = {}
    if not os.path.exists(FINDINGS):
        return out
    with open(FINDINGS, encoding='utf-8') as f:
        for line in f:
            line = line.strip()
            if not line.startswith('known:'):
                continue
            parts = line[len('known:'):].split(None, 2)
            d = dict(p.split('=', 1) for p in parts[:2])
            if d.get('property') == prop:
                out[d['sig']] = parts[2] if len(parts) > 2 else ''
    return out


class Report:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.parts = []
        self.assumptions = []
        self.violations = []
        self.known = {}

    def add(self, name, res, bounds, **extra):
        self.parts.append((name, res, bounds, extra))
        for v in res.violations:
            v = dict(v, scenario=name)
            self.violations.append(v)
        for sig, (text, n) in res.known.items():
            t, m = self.known.get(sig, (text, 0))
            self.known[sig] = (t, m + n)

    def assume(self, *texts):
        self.assumptions += list(texts)

    def finish(self):
        allowed = known_signatures(self.prop)
        real = [v for v in self.violations if v.get('sig') not in allowed or v.get('sig') is None]
        seen = {}
        for v in self.violations:
            if v.get('sig') in allowed and v.get('sig') is not None:
                seen[v['sig']] = seen.get(v['sig'], 0) + 1
        for sig, (text, n) in self.known.items():
            if sig in allowed:
                seen[sig] = seen.get(sig, 0) + n
            else:
                real.append({'message': 'unlisted finding %s: %s' % (sig, text), 'sig': None,
                             'choices': [], 'shown': [], 'scenario': '?'})
        real.sort(key=lambda v: (sum(1 for k in v.get('choices', []) if k), len(v.get('choices', []))))
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            'states': sum(len(r.states) for _, r, _, _ in self.parts),
            'transitions': sum(r.transitions for _, r, _, _ in self.parts),
            'traces_validated_against_impl': sum(r.executions for _, r, _, _ in self.parts),
            'oracle_checks': sum(r.checks for _, r, _, _ in self.parts),
            'distinct_outcomes': sum(len(r.outcomes) for _, r, _, _ in self.parts),
            'exhaustive': all(r.complete for _, r, _, _ in self.parts),
            'samples': [dict(s, scenario=n) for n, r, _, _ in self.parts for s in r.samples[:2]],
            'scenarios': {n: dict({
                'executions': r.executions, 'skipped_outside_alphabet': r.skipped,
                'states': len(r.states), 'transitions': r.transitions,
                'oracle_checks': r.checks, 'distinct_outcomes': len(r.outcomes),
                'max_choices': r.maxdepth, 'complete': r.complete, 'bounds': b,
            }, **x) for n, r, b, x in self.parts},
        }
        if self.level in ('fault_enumeration', 'exploration'):
            cov['evaluations'] = cov['traces_validated_against_impl']
            cov['distinct_nontrivial'] = cov['distinct_outcomes']
            cov['rule'] = ('every answer sequence of the scenario choice tree is executed; '
                           'distinct_nontrivial counts distinct observed outcomes')
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': self.level, 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(real),
        }
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
        for sig, n in sorted(seen.items()):
            print('KNOWN-FINDING: property=%s %s (%s; met in %d explored executions)' % (
                self.prop, allowed[sig], sig, n))
        print('%s tier=%s executions=%d states=%d transitions=%d checks=%d outcomes=%d exhaustive=%s wall=%.1fs' % (
            self.prop, self.tier, cov['traces_validated_against_impl'], cov['states'],
            cov['transitions'], cov['oracle_checks'], cov['distinct_outcomes'],
            cov['exhaustive'], ev['wall_s']))
        for n, s in cov['scenarios'].items():
            print('   %-34s exec=%-8d states=%-8d trans=%-8d outcomes=%-6d complete=%s' % (
                n, s['executions'], s['states'], s['transitions'], s['distinct_outcomes'], s['complete']))
        if not real:
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        for i, v in enumerate(real[:3]):
            path = os.path.join(REPLAYS, '%s-%d.json' % (self.prop, i))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': self.prop, 'scenario': v['scenario'],
                           'choices': v.get('choices'), 'shown': v.get('shown'),
                           'message': v['message'],
                           'how': 'python -m mc.run %s --replay %s (in /verif)' % (self.prop, path)},
                          f, indent=1, ensure_ascii=False, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  scenario: %s' % v['scenario'])
            for s in v.get('shown') or []:
                print('    %s = %s' % tuple(s))
            print('  ' + v['message'].replace('\n', '\n  ')[:900])
        return 1
