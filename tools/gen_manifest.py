#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
NOTES = {}
p = root + '/tools/level_notes.json'
if os.path.exists(p):
    NOTES = json.load(open(p))
checks = []
for q in props:
    i = q['id']
    if not os.path.exists(root + '/harness/%s.cpp' % i):
        continue
    n = NOTES.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': n.get('technique', 'property-based testing with a reference model, shrinking and replay'),
        'level': 'exploration',
        'level_note': n.get('note', 'Generated cases only; sizes are bounded as described in DESIGN.md.'),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 build.py --all',
    'checks': checks,
    'not_applicable': [],
    'notes': 'Each check rebuilds the parts of /repo/src it needs (content-hashed objects under build/) and links a generator/oracle harness from harness/. No hooks in /repo are needed.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
