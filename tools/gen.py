#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from mc/registry.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc.registry import PROPS, NA  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors')}) + '\n')
checks, na = [], []
for p in PROPS:
    pid = p['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]})
    elif os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'bash run.sh {pid} quick',
            'thorough_cmd': f'bash run.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': p['technique'], 'level': p['level'],
            'level_note': p['level_note']})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
manifest = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
            'not_applicable': na,
            'notes': 'No hooks in /repo: the checks drive the real code '
                     'through its public functions. /repo has only "fix:" '
                     'commits, listed in known_findings.json.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
