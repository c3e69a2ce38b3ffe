"""Rewrites floors.py from the evidence of the last quick run (30 percent)."""
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fl = {}
for f in sorted(glob.glob(H + '/evidence/P*.json')):
  e = json.load(open(f))
  fl[e['property']] = max(1, int(e['coverage']['discharged'] * 0.3))
with open(H + '/floors.py', 'w') as h:
  h.write('"""Minimum number of decided obligations per property (else: no answer)."""\n')
  h.write('FLOOR = {\n' + ''.join("    '%s': %d,\n" % kv for kv in sorted(fl.items())) + '}\n')
