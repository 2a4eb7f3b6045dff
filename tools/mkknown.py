#!/usr/bin/env python3
"""Writes known_findings.json: the open findings (tools/open_findings.json) plus one 'fixed' line per fix commit of /repo."""
import json, os, re, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open_ = json.load(open(H + '/tools/open_findings.json'))
tag = json.load(open(H + '/tools/fix_props.json'))
out = list(open_)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    pid = next((p for pat, p in tag if re.search(pat, s)), None)
    if not pid:
        print('untagged:', l); continue
    out.append({'id': 'fixed-' + h, 'property': pid, 'status': 'fixed', 'match': {}, 'what': f'fixed: property={pid} {h} {s[5:]}'})
json.dump(out, open(H + '/known_findings.json', 'w'), indent=1); open(H + '/known_findings.json', 'a').write('\n')
