#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = 'TLA+ model (TLC) bound to the code by trace validation'
GEN = 'TLA+ model (TLC): generated behaviours replayed into the code, recorded traces validated'
NOTE = {
    'P01': 'whole sessions of the real map builder under controlled schedules (random walk, PCT, involuntary pauses), every history validated against Pipeline.tla',
    'P07': 'PoolImpl.tla checked exhaustively (refines Pool.tla); histories of the real pool under controlled schedules validated against Pool.tla',
}
for p in ('P02', 'P03', 'P04', 'P05', 'P06'):
    NOTE[p] = NOTE['P01']
NOTE['P09'] = NOTE['P01'] + '; sessions with offloading enabled'
try:
    NOTE.update(json.load(open(os.path.join(ROOT, 'tools', 'notes.json'))))
except FileNotFoundError:
    pass
NA = {}

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    pid = p['id']
    f = os.path.join(ROOT, 'tools', 'checks', pid.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
        continue
    checks.append({'property': pid,
                   'quick_cmd': 'python3 tools/check.py %s quick' % pid,
                   'thorough_cmd': 'python3 tools/check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': GEN if pid in ('P15', 'P29') else MC,
                   'level': 'model_checking',
                   'level_note': NOTE.get(pid, '')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks: only public interfaces are used', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Checks rebuild the sources of /repo with ccache in /verif/build; see DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
