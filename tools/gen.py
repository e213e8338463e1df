#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and units.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + '/tools']
import props, units
ids = [i for i in sorted(props.P) if i in units.PROPS]
with open(V + '/properties.jsonl', 'w') as f:
    for i in ids: f.write(json.dumps(props.P[i]) + '\n')
TECH = 'bounded symbolic execution of the real code (LLVM IR) with Z3; counterexamples replayed natively'
def note(i):
    u = units.PROPS[i]; return ('Within the bounds every assertion is decided by the solver for all values' + (' and every schedule' if any(x.threads for x in u['units']) else '') + '. Bounds: ' + u['bounds'] + '. Not covered: ' + u['outside'] + '. Trusts: the engine (differentially tested, and each run validated by native replays), Z3, the environment model of files, clock, sockets, shared memory' + (', sequentially consistent memory' if any(x.threads for x in u['units']) else '') + '.')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'VF_ENGINE', 'enable': 'no hooks are needed in /repo: the harnesses include its headers as they are (VF_ENGINE only selects the C library models inside /verif/harness/env.h)', 'source_commits': []},
  'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': note(i)} for i in ids],
  'not_applicable': [], 'notes': 'DESIGN.md describes the engine, the environment model, the bounds and the findings.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(ids), 'properties')
