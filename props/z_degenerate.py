"""P26: degenerate inputs."""
from .common import *
from . import REG
from absint.octbase import Degenerate


def degenerate(fn, fix=(), occ=None, off=0):
  def f():
    Degenerate.fix, Degenerate.occ, Degenerate.off = dict(fix), occ, off
    try:
      fn()
    finally:
      Degenerate.fix, Degenerate.occ, Degenerate.off = {}, None, 0
  return f


QUERY = ('no query', dict(fix={'Q': 0}))
EMPTY = ('nothing occupied', dict(occ=0))
BELOW = ('nothing occupied below', dict(occ=0, off=1))
POINTS = ('no points', dict(fix={'n': 0}))
# P14 and P09 repeat the operators of P08, P11 - P13; growth never meets a
# level without nodes
WHAT = {p: (EMPTY, BELOW) for p in ('P04', 'P05', 'P06', 'P08', 'P10', 'P11', 'P13', 'P18', 'P19', 'P21', 'P24', 'P25')}
WHAT['P07'] = WHAT['P12'] = EMPTY, BELOW, QUERY
WHAT['P02'] = WHAT['P20'] = (POINTS,)
WHAT['P06'] += (POINTS,)


def install():
  for pid, vs in WHAT.items():
    reg = list(REG.get(pid, ()))
    every = max(1, len(reg) // (6 if pid == 'P24' else 25))
    for what, kw in vs:
      for n, o in enumerate(reg):
        ob('P26', '%s: %s [%s]' % (pid, o.name, what), o.tier if n % every == 0 else 'thorough', o.timeout,
           o.paths)(degenerate(o.fn, **kw))


install()
