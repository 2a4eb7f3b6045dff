#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props
ids = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in ids:
    s = props.PROPS.get(p['id'])
    if not s:
        na.append({'property': p['id'], 'reason': props.NA.get(p['id'], 'check still being built')})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --tier quick', 'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
                   'technique': s.get('technique', props.TECHNIQUE), 'level': s['level'], 'level_note': s.get('note', props.NOTE)})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks in /repo. Checks rebuild the analyser and every probe unit from /repo on each run.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
