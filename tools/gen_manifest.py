#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
NOTES = json.load(open(H + '/tools/level_notes.json')) if os.path.exists(H + '/tools/level_notes.json') else {}
checks, na = [], []
for i in ids:
    if i in PROPS:
        t = NOTES[i]['technique']
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': t, 'level': 'exploration',
                       'level_note': NOTES[i]['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors use the public interface of the library, compiled from /repo with sanitizers'},
           'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Known and repaired findings: KNOWN_FINDINGS.txt.'}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
