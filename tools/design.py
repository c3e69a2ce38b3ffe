"""Fills the tables of DESIGN.md from table.py, known_findings.json, seeded/."""
import glob
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from table import PROPS, NA
from how import HOW
src = open(H + '/tools/DESIGN.in').read()
claimed = {c.get('property_id') or c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']}
out = []
for p in PROPS:
  if p['id'] in NA:
    continue
  out.append('**%s – %s.**%s %s\n' % (p['id'], p['title'], '' if p['id'] in claimed else ' *(not claimed)*',
                                    HOW.get(p['id'], '')))
  n = H + '/evidence/%s.json' % p['id']
src = src.replace('@@PROPS@@', '\n'.join(out))
src = src.replace('@@NA@@', '\n'.join('* %s: %s.' % kv for kv in sorted(NA.items())))
fx = json.load(open(H + '/known_findings.json'))['findings']
src = src.replace('@@FIXED@@', '\n'.join('* %s' % (k['what']) for k in fx))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
  m = json.load(open(d))
  b = os.path.basename(os.path.dirname(d))
  rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'),
                                             m['needs'].replace('|', '/'), ', '.join(caught.get(b, ['?']))))
src = src.replace('@@BUGS@@', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(src)
