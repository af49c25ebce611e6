#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and tools/notes.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
from registry import REGISTRY
notes = json.load(open(os.path.join(V, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    n = notes.get(p, {})
    if p in REGISTRY:
        checks.append({'property': p, 'quick_cmd': f'python3 checks/run.py {p}', 'thorough_cmd': f'python3 checks/run.py {p} thorough',
                       'evidence_file': f'evidence/{p}.json',
                       'technique': n.get('technique', 'TLA+ specification checked with TLC; traces of the real code validated against it, its behaviours replayed on the real code'),
                       'level': n.get('level', 'model_checking'), 'level_note': n['note']})
    else:
        na.append({'property': p, 'reason': n.get('reason', 'the check is not built yet')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the harness is compiled as a package of the module under test through go build -overlay', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC. Exit 3 or 4 of a check means the check itself failed. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
