#!/usr/bin/env python3
"""Write MANIFEST.json from tools/harnesses.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import harnesses as H
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
SAN = {'asan': 'AddressSanitizer/UBSan', 'tsan': 'ThreadSanitizer', 'plain': 'uninstrumented stress'}
checks, na = [], []
for p in ids:
    if p not in H.CHECKS:
        na.append({'property': p, 'reason': H.NOT_APPLICABLE.get(p, 'no runtime monitor built yet')})
        continue
    c = H.CHECKS[p]
    san = ' and '.join(dict.fromkeys(SAN[r[1]] for r in c['runs']))
    checks.append({
        'property': p,
        'quick_cmd': f'python3 tools/check.py {p} --tier quick',
        'thorough_cmd': f'python3 tools/check.py {p} --tier thorough',
        'technique': f'runtime monitoring: the real code run under {san} on seeded generated and hostile workloads, judged by {c["oracle"]}',
        'level': 'exploration',
        'level_note': c.get('note', 'Holds on every execution explored; not a proof. Covered cases and events are in the evidence file.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --build-all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: monitors observe through public and protected interfaces, instrumented element/agent types, and the sanitizers. See DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
