#!/usr/bin/env python3
"""Prints sections 4 and 5 of DESIGN.md (findings, planted bugs) from the committed tables; run by hand."""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
late = json.load(open(os.path.join(H, 'tools', 'late.json')))
o = ['## 4. Findings', '', 'Every violation the checks reported on the original tree was reproduced against the real code. All were repaired',
     '(one `fix:` commit each); none is left as a known finding.', '', '| commit | property | what failed |', '|---|---|---|']
for k in json.load(open(os.path.join(H, 'known_findings.json'))):
    o.append('| %s | %s | %s |' % (k['commit'][:7], k['property'], k['what']))
o += ['', '## 5. Planted bugs', '', '`seeded/<id>`; each is caught by the check of its property. "missed at first" says what had to be strengthened.', '',
      '| id | check | what it breaks | missed at first |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), late.get(i, late.get(i.split('_')[0], ''))))
p = os.path.join(H, 'DESIGN.md')
t = open(p).read().split('## 4. Findings')[0].rstrip() + '\n\n' + '\n'.join(o) + '\n\n' + open(os.path.join(H, 'tools', 'design_tail.md')).read()
open(p, 'w').write(t)
