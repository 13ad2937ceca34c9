#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vf/checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf.run import load
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'vf', 'checks', pid.lower() + '.py')):
        load(pid)
        t, n = NOTES[pid]
        checks.append({'property': pid, 'quick_cmd': 'python3 -m vf.run %s quick' % pid, 'thorough_cmd': 'python3 -m vf.run %s thorough' % pid,
                       'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': pid, 'reason': NOTES.get(pid + '-na', 'not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q vf', 'checks': checks, 'not_applicable': na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
