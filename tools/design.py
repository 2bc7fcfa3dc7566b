#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.tmpl, tools/design_per.py, props.py and seeded/*/meta.json"""
import glob, json, os, sys
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
sys.path.insert(0, T)
from props import P
from design_per import PER, OBS
man = json.load(open(V + '/MANIFEST.json'))
claimed = {c['property'] for c in man['checks']}
ti = {p['id']: p for p in P}
per = []
for p in P:
    if p['id'] not in claimed: continue
    per.append('### %s %s\n\n*Technique:* %s.\n\n%s\n\n*Bounds:* %s\n' % (p['id'], p['title'], p['technique'], PER.get(p['id'], ''), p['note']))
na = ['| %s %s | %s |' % (x['property'], ti[x['property']]['title'], x['reason']) for x in man['not_applicable']]
seed = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    o = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seed.append('| %s | %s | %s | %s |' % (n, o['property'], o['needs'], o['property'] + ' (own check)'))
s = open(T + '/design.tmpl').read()
s = s.replace('@@PER@@', '## Per property\n\n' + '\n'.join(per)).replace('@@NA@@', '\n'.join(na)).replace('@@SEED@@', '\n'.join(seed)).replace('@@OBS@@', OBS)
open(V + '/DESIGN.md', 'w').write(s)
missing = [p for p in sorted(claimed) if p not in PER]
print('missing', missing)
