"""P15, P16, P17: effect analyses over the harnesses of the other properties.

Every harness drives public operators on arbitrary symbolic data; here the
values are ignored and only the effects are judged: which storages of the
caller are written, on which device and in which type everything is computed.
"""
from .common import *
from . import REG
from absint.interp import RepoError, Unsupported


def judge_mutations(allow):
  for e in tn.AN.events:
    if e['kind'] not in ('mutate', 'setattr'):
      continue
    if allow is not None and allow(e):
      continue
    o = e['origin']
    if not o:
      continue
    fail('the code writes to %s of the caller%s' % (
        describe(o), ' (attribute %s)' % e['attr'] if e['kind'] == 'setattr' else ''), e['where'])


def describe(o):
  if isinstance(o, tuple) and o and isinstance(o[0], tuple):
    return 'octree.' + ' '.join(str(x) for x in o[1:])
  return ' '.join(str(x) for x in o) if isinstance(o, tuple) else str(o)


def effect(kind, fn, dev=None, fdt=None, allow=None):
  def f():
    dr.Mode.kind, dr.Mode.dev, dr.Mode.fdt = kind, dev, fdt
    try:
      try:
        fn()
      finally:
        if kind == 'mut':
          judge_mutations(allow)
      ok('no write to caller data' if kind == 'mut' else
         'all operations on %s' % dev if kind == 'dev' else 'all results in %s' % fdt)
    finally:
      dr.Mode.reset()
  return f


def lists_of(*names):
  """Allows an octree to update its own attributes (not the tensors in them)."""
  def allow(e):
    o = e['origin']
    if e['kind'] == 'setattr':
      return o and o[0] == 'octree'
    return isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], tuple) and o[1] in names
  return allow


SWEEP = {
    'mut': ['P01', 'P04', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P20', 'P21', 'P22',
            'P25', 'P03', 'P05', 'P06', 'P02'],
    'dev': ['P01', 'P03', 'P04', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P20', 'P21',
            'P25', 'P02', 'P05', 'P06'],
    'dtype': ['P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P21', 'P25', 'P20', 'P05', 'P06'],
}
PID = {'mut': 'P15', 'dev': 'P16', 'dtype': 'P17'}
ALLOW = {'P03': lists_of('keys', 'children', 'neighs', 'features', 'normals', 'points', 'nnum',
                         'nnum_nempty'),
         'P04': lists_of('neighs'),
         'P02': lists_of('keys', 'children', 'neighs', 'features', 'normals', 'points', 'nnum',
                         'nnum_nempty')}


def install():
  for kind, pids in SWEEP.items():
    for pid in pids:
      for n, o in enumerate(list(REG.get(pid, ()))):
        if kind == 'dtype' and any(t in o.name for t in ('float64', 'float16', 'int64', 'int32')):
          continue
        if kind == 'dev' and ('cuda' in o.name or ' device' in o.name or 'init_octree' in o.name):
          continue
        allow = ALLOW.get(pid) if kind == 'mut' else None
        for v in {'mut': (None,), 'dev': ('cuda:0',), 'dtype': ('float64', 'float16')}[kind]:
          if pid == 'P20' and v == 'float16':
            continue      # point clouds are single or double precision
          tier = 'thorough' if v == 'float16' and n % 3 else o.tier
          ob(PID[kind], '%s: %s%s' % (pid, o.name, ' [%s]' % v if v else ''), tier, o.timeout,
             o.paths)(effect(kind, o.fn, v if kind == 'dev' else None, v if kind == 'dtype' else None,
                             allow))


install()
