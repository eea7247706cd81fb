#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, 'tools/levels.json')))
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if os.path.isdir(os.path.join(root, 'harness/checks', pid.lower())):
        n = notes.get(pid, {})
        checks.append({
            'property': pid,
            'quick_cmd': f'bash run.sh {pid} quick',
            'thorough_cmd': f'bash run.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': n.get('technique', 'property-based testing (rapid) against a reference oracle'),
            'level': 'exploration',
            'level_note': n.get('note', 'Generated-input search against an independent oracle; never establishes absence.'),
        })
    else:
        na.append({'property': pid, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are Go test binaries in harness/ (own module, replace zntr.io/solid => /repo), driven by run.sh. No hooks in /repo. Listed findings and repairs: known-findings.txt.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
