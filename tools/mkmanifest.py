#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of contracts."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from scv.registry import PROPS
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
TECH = 'contract-based deductive verification of the real Rust source (scv: pre/postconditions, loop summaries/invariants, per-function obligations, exact-real arithmetic)'
BOUNDED = 'bounded stand-in, not a proof: the real command functions (src/obs.rs, src/writers.rs, their text unchanged) are run on drawn configurations against recording stand-ins of the chain, and the contract is evaluated on what they did'
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt -m scv.check %s --tier quick' % i,
                   'thorough_cmd': 'python3-vt -m scv.check %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': p.get('technique', TECH), 'level': p.get('level', 'proof'),
                   'level_note': p.get('note', BOUNDED if p.get('level') == 'exploration' else 'every obligation generated from the current source of the functions under contract is discharged for all inputs, reading f64 as real numbers; the same contracts are evaluated on outputs of the compiled code on drawn inputs as a cross-check and to find failing inputs')})
na = [{'property': i, 'reason': NA.get(i, 'not claimed yet: contracts for this property are not built')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q scv && mkdir -p evidence replays', 'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not applicable')
