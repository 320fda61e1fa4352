#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks and the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
WT = 'TLA+ machine specification (Wasm.tla), TLC checks traces recorded from the real code against it'
T = {}
for k in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C17 C18 C27'.split():
    T[k] = (WT, 'model_checking', 'every recorded call, memory, table, global and host event of generated modules is checked by TLC against the specification; the inputs are generated, not exhaustive')
T.update(getattr(props, 'TECH', {}))
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        t = T[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t[0], 'level': t[1], 'level_note': t[2]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'the check for this property is not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
