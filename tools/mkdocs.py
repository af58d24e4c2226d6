#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from meta.py"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
from meta import PROPS
with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        a = {'files': ['pypower/' + f for f in p['files']],
             'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        a['observe_at'] = list(p['observe']) or ['return values and tables of the public functions listed under mechanism']
        a['hook_needed'] = None
        assert len(p['title']) <= 80, p['id']
        for f in a['files']:
            assert os.path.exists('/repo/' + f), f
        fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['quant']},
                             'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                   'thorough_cmd': './check.sh %s thorough' % p['id'],
                   'technique': 'runtime monitoring: ' + p['oracle'], 'level': 'exploration',
                   'level_note': p['note']} for p in PROPS],
       'not_applicable': [],
       'notes': 'Every check runs the real /repo code in worker processes and decides from monitors with independent oracles; '
                'see DESIGN.md. Known findings: known_findings.json.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')

# ---- DESIGN.md
import re, sys
os.environ.setdefault('VERIF_REPO', '/repo')
seeded = {}
sd = os.path.join(root, 'seeded')
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    seeded.setdefault(json.load(open(os.path.join(sd, n, 'meta.json')))['property'], []).append(n)
src = ''
for f in sorted(os.listdir(os.path.join(root, 'props'))):
    if f.endswith('.py'):
        src += open(os.path.join(root, 'props', f)).read()
out = [open(os.path.join(here, 'design_head.md')).read(), '## The properties\n']
for p in PROPS:
    m = re.search(r"@prop\('%s',(.*?)\)\ndef " % p['id'], src, re.S)
    txt = ''.join(re.findall(r"'((?:[^'\\]|\\.)*)'", m.group(1).split('floors=')[0])) if m else ''
    fl = re.search(r'floors=\{(.*?)\}', m.group(1), re.S) if m else None
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('* **Specified:** %s' % p['statement'])
    out.append('* **Why tests cannot:** %s' % p['why'])
    out.append('* **Workloads:** %s.' % txt)
    out.append('* **Oracle:** %s.' % p['oracle'])
    out.append('* **Limits:** %s.' % p['note'])
    if fl:
        out.append('* **Must have been observed (quick tier):** %s.' % ', '.join('%s >= %s' % (a, b) for a, b in re.findall(r"'([^']*)': (\d+)", fl.group(1))))
    if seeded.get(p['id']):
        out.append('* **Planted bugs caught:** %s.' % ', '.join(seeded[p['id']]))
    out.append('')
out.append('## Genuine defects found and repaired\n\nEach was shown on the real code by the check named, then repaired by a separate `fix:` commit; '
           'reverting the commit makes that check report it again (checked with a scratch clone for all that still revert cleanly).\n')
kf = json.load(open(os.path.join(root, 'known_findings.json')))['findings']
for k in kf:
    out.append('* %s' % k['entry'] if k['status'] == 'fixed' else '* open: property=%s %s' % (k['property'], k['what']))
out.append(open(os.path.join(here, 'design_tail.md')).read() if os.path.exists(os.path.join(here, 'design_tail.md')) else '')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
