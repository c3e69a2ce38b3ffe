#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.

A property is claimed iff props/ registers obligations for it.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # noqa: E402
from tools.table import PROPS, NA  # noqa: E402

ASSURE = ('Decided from the syntax tree of the current /repo on every run by abstract interpretation with '
          'calls inlined: sizes, tensor contents, keys and tree structure are symbolic, so a discharged '
          'obligation covers every octree/input of its shape class. ')
TRUST = (' Trusts the operator models in absint/torchlib.py and the octree invariants of absint/octbase.py; '
         'floating point is treated as real arithmetic. An obligation whose normal forms neither agree nor '
         'can be told apart is printed as UNDECIDED and does not count as a violation.')


def main():
  reg = props.load()
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
      over = p['over'] if isinstance(p['over'], list) else [p['over']]
      f.write(json.dumps(dict(
          id=p['id'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=over, text=p['q']),
          why_tests_cant=p['why'],
          anchors=dict(files=p['files'],
                       mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                       observe_at=p.get('obs', []), hook_needed=None))) + '\n')
      assert len(p['title']) <= 80, p['id']
      assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
  checks, na = [], []
  for p in PROPS:
    if p['id'] in reg:
      checks.append(dict(
          property=p['id'],
          quick_cmd='python3 check.py %s --tier quick' % p['id'],
          thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
          technique=p.get('tech', 'abstract interpretation to normal forms with value numbering; definite '
                          'violations only'),
          level='other', level_note=ASSURE + p.get('note', '') + TRUST))
    else:
      na.append(dict(property=p['id'], reason=NA.get(p['id'], p.get('na', 'not analysed yet'))))
  m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
           notes='All checks are static analyses of the Python source in /repo (env OCNN_ROOT overrides the '
                 'path); nothing from /repo is imported or executed. No hooks.')
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  print('%d properties, %d claimed: %s' % (len(PROPS), len(checks), ' '.join(c['property'] for c in checks)))
  missing = [k for k in reg if k not in [p['id'] for p in PROPS]]
  assert not missing, missing


if __name__ == '__main__':
  main()
