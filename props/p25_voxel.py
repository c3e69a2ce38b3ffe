"""P25: conversion of node features to a dense volume."""
from .common import *

D = 4


def vox(F, d, nempty, cls):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False)
    set_models(octree_models(D, F, C=small))
    C = sym('C')
    x = feat('x', [o.N(d, nempty), C])
    if cls:
      r = call(call(anchor('ocnn.nn:Octree2Voxel'), nempty), x, o.obj, d)
    else:
      r = call(anchor('ocnn.nn:octree2voxel'), x, o.obj, d, nempty)

    def spec(b, i, j, k, c):
      v = fresh(o.N(d, nempty))
      key = o.key(d, o.sel(d, P(v)) if nempty else P(v))
      q = [tm.addn([tm.scale(bit(key, 3 * t + s), 2 ** t) for t in range(d)]) for s in (2, 1, 0)]
      cond = [Eq(a - g) for a, g in zip(q, (i, j, k))] + [Eq(tm.mk_slc(key, 48, None) - b)]
      t = App('x', P(v), c)
      for e in cond:
        t = mul(t, e)
      return mk_sum([v], t)
    n = 2 ** d
    check_equal(r, [o.B, n, n, n, C], spec, 'each node feature is stored at its batch, x, y, z cell',
                dtype='float32', enum=0)
  return f


for _F, _d in ((1, 1), (2, 1), (2, 2), (2, 3), (2, 4)):
  for _n in (False, True):
    for _c in (False, True):
      ob('P25', 'octree2voxel F=%d d=%d nempty=%d module=%d' % (_F, _d, _n, _c))(vox(_F, _d, _n, _c))
