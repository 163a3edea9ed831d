"""Writes MANIFEST.json from registry.py (python3 mkmanifest.py)."""
import json
import registry

TECH = 'symbolic execution of the LLVM IR of the crate, assertions decided by SMT/SAT solvers (z3, cvc5, kissat/cadical when present); counterexamples replayed on the real build'
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for pid in sorted(registry.PROPS):
    s = registry.PROPS[pid]
    m['checks'].append({
        'property': pid,
        'quick_cmd': 'python3 check.py --property %s --tier quick' % pid,
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % pid,
        'technique': TECH,
        'level': 'model_checking',
        'level_note': s.get('note') or 'All values within the bounds: %s. Assumed: see the evidence file and DESIGN.md.' % '; '.join(j['bounds'] for j in s['jobs'] if j['bounds']),
    })
ids = {json.loads(x)['id'] for x in open('properties.jsonl')}
for pid, why in sorted(getattr(registry, 'NOT_APPLICABLE', {}).items()):
    m['not_applicable'].append({'property': pid, 'reason': why})
assert ids == set(registry.PROPS) | set(getattr(registry, 'NOT_APPLICABLE', {})), ids ^ set(registry.PROPS)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
