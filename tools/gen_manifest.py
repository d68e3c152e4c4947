#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list of decided properties"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = os.environ.get('DONE', '').split() or [l.strip() for l in open(os.path.join(H, 'tools/claimed.txt')) if l.strip()]
NOTE = {}
exec(open(os.path.join(H, 'tools/level_notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read and compile the unmodified sources', 'source_commits': []},
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in DONE:
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification: verification conditions generated from the real source (clang AST) and discharged by SMT',
            'level': 'proof', 'level_note': NOTE.get(i, DEFAULT_NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'not claimed yet: its contracts are still being built'})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
