#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {}
NOTE = ('Proved (Verus, all inputs and dimensions) on the functions of /repo as extracted on this run, under the assumption that the element '
        'type behaves as exact real arithmetic; floating-point rounding is outside. A tree on which an annotation no longer fits is reported as '
        'not proved (bounded falsification of the real crate only) and not as an alarm.')
SPECIAL = {}
exec(open(H + '/tools/manifest_special.py').read()) if os.path.exists(H + '/tools/manifest_special.py') else None
thms = {}
tp = H + '/vx/theorems.rs'
if os.path.exists(tp):
    for m in re.finditer(r'\bfn (c(\d\d)_\w+)', open(tp).read()):
        thms.setdefault('C' + m.group(2), []).append('thm::' + m.group(1))
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    c = {'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
         'technique': 'deductive contracts (Verus) on the mechanically extracted source', 'level': 'proof', 'level_note': NOTE}
    if i in thms:
        c['theorems'] = thms[i]
    c.update(SPECIAL.get(i, {}))
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'check.py ID extracts /repo/crates/minikalman/src into one Verus file with the contracts of vx/, verifies it, probes it for vacuity, and runs a falsifier of the real crate. No hooks in /repo.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
