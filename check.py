#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only SUBSTR] [-v]

Static decision of one property on the source in /repo (nothing from /repo is
imported or executed).  Exit 0: no violation; 1: VIOLATION line printed;
2: the analysis itself is broken (missing anchor, too few rule instances).
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from absint import driver as dr          # noqa: E402
from absint import tensor as tn          # noqa: E402
import props                              # noqa: E402


def known():
  out = []
  f = os.path.join(HERE, 'known_findings.json')
  if os.path.exists(f):
    with open(f) as h:
      out = json.load(h)['findings']
  return [k for k in out if k.get('status') == 'known']


def run_one(o):
  t0 = time.time()
  dr.INTERP.called.clear()
  limit = o.timeout
  if _UNTIL is not None:
    left = int(_UNTIL - t0)
    if left < 5:
      return dict(name=o.name, status='UNDECIDED', wall=0, info=['no time left in this run'])
    limit = min(limit, left)
  try:
    st, run, info = dr.explore(o.fn, o.paths, limit)
  except dr.AnchorMissing as ex:
    return dict(name=o.name, status='ANCHOR', info=str(ex), wall=time.time() - t0)
  except Exception as ex:
    return dict(name=o.name, status='CRASH', info=traceback.format_exc(),
                wall=time.time() - t0)
  r = dict(name=o.name, status=st, wall=time.time() - t0, paths=run.paths,
           items=run.items[:200], nitems=len(run.items),
           called=sorted(dr.INTERP.called), notes=run.notes[:20],
           assumed=sorted(set(str(a[-1]) for a in tn.AN.assumed))[:10])
  if st == 'VIOLATION':
    r['info'] = info.msg
    r['where'] = info.where
    r['key'] = info.key
  elif st == 'UNDECIDED':
    r['info'] = info
  return r


def main():
  args = sys.argv[1:]
  tier = os.environ.get('VERIF_TIER', 'quick')
  only, verbose = None, False
  pid = None
  i = 0
  while i < len(args):
    if args[i] == '--tier':
      tier = args[i + 1]
      i += 1
    elif args[i] == '--only':
      only = args[i + 1]
      i += 1
    elif args[i] == '-v':
      verbose = True
    else:
      pid = args[i]
    i += 1
  reg = props.load()
  if pid not in reg:
    print('ERROR: unknown property %r' % pid)
    return 2
  obs = [o for o in reg[pid] if tier == 'thorough' or o.tier == 'quick']
  global _UNTIL
  if tier != 'thorough':
    _UNTIL = time.time() + 720      # (a quick run gives its answer within 900 s)
  full = len(obs)
  if only:
    obs = [o for o in obs if only in o.name]
  t0 = time.time()
  res = []
  broken = None
  try:
    dr.init()
  except dr.Violation as ex:
    res = [dict(name='import', status='VIOLATION', info=ex.msg, where=ex.where,
                key='import', wall=0)]
    obs = []
  except Exception as ex:
    broken = 'the package cannot be analysed: %s' % ex
    obs = []
  if obs:
    n = min(int(os.environ.get('ABS_JOBS', '8')), len(obs))
    if n <= 1:
      res = [run_one(o) for o in obs]
    else:
      global _OBS
      _OBS = obs
      with mp.get_context('fork').Pool(n, maxtasksperchild=8) as pool:
        res = pool.map(_go, range(len(obs)), chunksize=1)
  return report(pid, tier, res, t0, broken, verbose, only, full)


_OBS = []
_UNTIL = None


def _go(i):
  return run_one(_OBS[i])


def report(pid, tier, res, t0, broken, verbose, only, full):
  kn = [k for k in known() if k['property'] == pid]
  viol, undec, crash, hit = [], [], [], []
  for r in res:
    if r['status'] == 'VIOLATION':
      k = match(kn, r)
      if k is not None:
        hit.append((k, r))
      else:
        viol.append(r)
    elif r['status'] == 'UNDECIDED':
      undec.append(r)
    elif r['status'] in ('ANCHOR', 'CRASH'):
      crash.append(r)
  items = sum(r.get('nitems', 0) for r in res)
  called = sorted(set(c for r in res for c in r.get('called', ())))
  print('property %s (%s): %d obligations over %d analysed functions, %d rule '
        'instances discharged' % (pid, tier, len(res), len(called), items))
  for r in res:
    if verbose or r['status'] not in ('PROVED',):
      print('  %-9s %-48s %6.2fs paths=%s %s' % (
          r['status'], r['name'], r['wall'], r.get('paths', '-'),
          str(r.get('info', ''))[:1500]))
  for k, r in hit:
    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  for r in undec:
    print('UNDECIDED property=%s obligation=%s: %s' % (pid, r['name'], str(r['info'])[:600]))
  ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')),
            level='other',
            coverage=dict(
                explanation='Abstract interpretation of the current /repo source '
                '(calls inlined, symbolic tensor contents and sizes); every '
                'obligation compares the extracted normal form, shape, dtype, '
                'device and effects of the analysed code with the property.',
                obligations=len(res),
                discharged=sum(1 for r in res if r['status'] == 'PROVED'),
                rule_instances=items,
                functions_analysed=len(called),
                functions=called,
                paths=sum(r.get('paths', 0) or 0 for r in res),
                undecided=[dict(obligation=r['name'], why=str(r['info'])[:500]) for r in undec],
                samples=[dict(obligation=r['name'], status=r['status'],
                              instances=r.get('items', [])[:6]) for r in res][:60]),
            assumptions=ASSUME + sorted(set(a for r in res for a in r.get('assumed', ())))[:20],
            wall_s=round(time.time() - t0, 2),
            violations=len(viol))
  if not only:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
  for r in viol:
    print('  violated: %s' % r['name'])
    print('    rule    : %s' % r['info'])
    print('    at      : %s' % r['where'])
    print('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, 'evidence', pid + '.json')))
  if viol:
    return 1
  if broken:
    print('ERROR: %s' % broken)
    return 2
  for r in crash:
    print('ERROR: analysis broken in %s: %s' % (r['name'], r['info']))
  anchors = [r for r in crash if r['status'] == 'ANCHOR']
  if anchors and not hit:
    return 2
  if not only:
    # too little decided: no answer rather than a vacuous pass
    import floors
    lo = floors.FLOOR.get(pid, 1)
    good = len(res) - len(undec) - len(crash)
    if good < lo:
      print('ERROR: only %d obligations decided, expected at least %d' % (good, lo))
      return 2
  return 0


ASSUME = [
    'semantics of torch operators as modelled in absint/torchlib.py',
    'real arithmetic for floating point values (rounding is not modelled)',
    'octree invariants of the abstract octree in absint/octbase.py',
]


def match(kn, r):
  for k in kn:
    if k['obligation'] == r['name'] and all(s in r['info'] + str(r['where']) for s in k['contains']):
      return k
  return None


if __name__ == '__main__':
  sys.exit(main())
