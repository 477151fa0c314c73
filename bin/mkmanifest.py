#!/usr/bin/env python3
"""Write MANIFEST.json from the registry of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
import registry

props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in registry.INFO:
        t, note = registry.INFO[p]
        checks.append({'property': p, 'quick_cmd': '/opt/venv/bin/python bin/check.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python bin/check.py ' + p,
                       'technique': t, 'level': 'model_checking', 'level_note': note})
    else:
        na.append({'property': p, 'reason': registry.NOT_CLAIMED.get(p, 'its specification and conformance check are not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Specifications in spec/ (TLA+, checked with TLC); harness/ binds them to the code of /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
