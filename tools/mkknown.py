#!/usr/bin/env python3
"""writes known_findings.json: repaired defects (from /repo's fix: commits) and open findings"""
import json, os, subprocess
from fixassign import ASSIGN, OPEN
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        pid = [p for p, t in ASSIGN if s[5:].startswith(t)]
        if len(pid) != 1:
            print('unmapped:', s)
            continue
        out.append({'status': 'fixed', 'property': pid[0], 'commit': h, 'what': s[5:],
                    'entry': 'fixed: property=%s %s %s' % (pid[0], h, s[5:])})
out += OPEN
with open(os.path.join(root, 'known_findings.json'), 'w') as fh:
    json.dump({'findings': out}, fh, indent=1)
    fh.write('\n')
print(len(out), 'findings')
