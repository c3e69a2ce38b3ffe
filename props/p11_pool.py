"""P11: padding, pooling and unpooling act node by node as documented."""
from .common import *

D, F = 4, 2


def setup(F=F, D=D):
  o = Oct(dr.interp(), D, F)
  set_models(octree_models(D, F, C=small, K=small))
  return o, sym('C')


def depths(F):
  return (F - 1, F, F + 1, D) if F > 1 else (F, F + 1, D)


def both(fn):
  """Registers fn(F, ...) for octrees with different full depths."""
  return fn


def pad(F, val):
  def f():
    o, C = setup(F)
    for d in sorted(set(depths(F))):
      x = feat('x', [o.N(d, True), C])
      g = anchor('ocnn.nn:octree_pad')
      v = None
      if val is None:
        r = call(g, x, o.obj, d)
        v = P(0)
      else:
        r = call(g, x, o.obj, d, val)
        v = tn.py2poly(val)
      check_equal(r, [o.N(d), C],
                  lambda i, c: Ite(Ge(o.ch(d, i)), App('x', o.ch(d, i), c), v),
                  'pad writes each non-empty row to its node and the value elsewhere', dtype='float32')
      y = feat('y', [o.N(d), C])
      r = call(anchor('ocnn.nn:octree_depad'), y, o.obj, d)
      check_equal(r, [o.N(d, True), C], lambda e, c: App('y', o.sel(d, e), c),
                  'depad keeps the rows of non-empty nodes in order', dtype='float32')
      r = call(anchor('ocnn.nn:octree_depad'), call(g, x, o.obj, d), o.obj, d)
      check_equal(r, [o.N(d, True), C], lambda e, c: App('x', e, c), 'depad(pad(x)) == x')
  return f


for _F in (1, 2, 3):
  ob('P11', 'pad/depad full_depth %d' % _F)(pad(_F, None))
ob('P11', 'pad value')(pad(2, -1.5))
ob('P11', 'pad -inf')(pad(2, float('-inf')))


def childmax(o, d, nempty, what='max'):
  """Max over the 8 children of the e-th non-empty node of depth d-1."""
  def val(e, c):
    def body(j):
      n = e * 8 + j
      if nempty:
        return Ite(Ge(o.ch(d, n)), App('x', o.ch(d, n), c), -tn.py2poly(float('inf')))
      return App('x', n, c)
    return tm.Red(what, lam(body, P(8)))
  return val


def maxpool(F, d, nempty, cls, kw):
  def f():
    o, C = setup(F)
    x = feat('x', [o.N(d, nempty), C])
    if cls:
      m = call(anchor('ocnn.nn:OctreeMaxPool'), nempty, return_indices=kw)
      r = call(m, x, o.obj, d)
    else:
      r = call(anchor('ocnn.nn:octree_max_pool'), x, o.obj, d, nempty, return_indices=kw)
    if kw:
      if not isinstance(r, tuple) or len(r) != 2:
        fail('max pooling with return_indices must return (data, indices)')
      r, ind = r
      am = childmax(o, d, nempty, 'argmax')
      check_equal(ind, [o.N(d - 1, True), C], lambda e, c: am(e, c), 'max pooling indices', dtype='int64')
    mx = childmax(o, d, nempty)
    if nempty:
      check_equal(r, [o.N(d - 1, True), C], lambda e, c: mx(e, c),
                  'max over the non-empty children of each non-empty node', dtype='float32')
    else:
      check_equal(r, [o.N(d - 1), C],
                  lambda i, c: Ite(Ge(o.ch(d - 1, i)), mx(o.ch(d - 1, i), c), P(0)),
                  'max over the eight children, zero for empty nodes', dtype='float32')
  return f


for _F in (1, 2):
  for _d in (_F, _F + 1, 4):
    for _n in (False, True):
      for _c in (False, True):
        for _k in (False, True):
          ob('P11', 'max_pool F=%d d=%d nempty=%d module=%d indices=%d' % (_F, _d, _n, _c, _k))(
              maxpool(_F, _d, _n, _c, _k))


def unpool(F, d, nempty, cls):
  def f():
    o, C = setup(F)
    rows = o.N(d, nempty)
    x = feat('x', [rows, C])
    I = feat('ind', [o.N(d, True), C], 'int64', lo=0, hi=7)
    for m in dr.CUR.models:
      m['ind'] = lambda i, c: (int(i) * 5 + int(c) * 3) % 8
    if cls:
      r = call(call(anchor('ocnn.nn:OctreeMaxUnpool'), nempty), x, I, o.obj, d)
    else:
      r = call(anchor('ocnn.nn:octree_max_unpool'), x, I, o.obj, d, nempty)

    def cell(n, c):
      e, j = tm.Div(n, P(8)), tm.Mod(n, P(8))
      src = e if nempty else o.sel(d, e)
      return Ite(Eq(App('ind', e, c) - j), App('x', src, c), P(0))
    check_equal(r, [o.N(d + 1, nempty), C],
                lambda i, c: cell(o.sel(d + 1, i) if nempty else i, c),
                'unpooling writes each value to the recorded child and zero elsewhere', dtype='float32')
  return f


for _F in (1, 2):
  for _d in (_F, _F + 1, 3):
    for _n in (False, True):
      for _c in (False, True):
        ob('P11', 'max_unpool F=%d d=%d nempty=%d module=%d' % (_F, _d, _n, _c))(unpool(_F, _d, _n, _c))


def pool_unpool(F, d, nempty):
  """Unpooling the pooled maxima restores exactly the maxima."""
  def f():
    o, C = setup(F)
    x = feat('x', [o.N(d, nempty), C])
    y, ind = call(anchor('ocnn.nn:octree_max_pool'), x, o.obj, d, nempty, True)
    r = call(anchor('ocnn.nn:octree_max_unpool'), y, ind, o.obj, d - 1, nempty)
    mx, am = childmax(o, d, nempty), childmax(o, d, nempty, 'argmax')

    def spec(i, c):
      n = o.sel(d, i) if nempty else i
      e, j = tm.Div(n, P(8)), tm.Mod(n, P(8))
      return Ite(Eq(am(e, c) - j), mx(e, c), P(0))
    check_equal(r, [o.N(d, nempty), C], spec, 'unpool(pool(x)) keeps the maxima in place')
  return f


for _d in (3, 4):
  for _n in (False, True):
    ob('P11', 'unpool after pool d=%d nempty=%d' % (_d, _n))(pool_unpool(2, _d, _n))


def avgpool(F, d, kernel, stride, nempty, cls):
  def f():
    o, C = setup(F)
    x = feat('x', [o.N(d, nempty), C])
    if cls:
      ks = [int(c) for c in kernel]
      if len(set(ks)) == 1:
        ks = ks[:1]
      r = call(call(anchor('ocnn.nn:OctreeAvgPool'), ks, stride, nempty), x, o.obj, d)
    else:
      r = call(anchor('ocnn.nn:octree_avg_pool'), x, o.obj, d, kernel, stride, nempty)
    rows = tm.Div(o.N(d), P(8)) if stride == 2 else o.N(d, nempty)

    def spec(i, c):
      from fractions import Fraction
      K = len(LUT[kernel])
      tab = lambda k: tm.Tab(tm.Table.make([K], [tm.Fraction(x) for x in LUT[kernel]]), k)
      v, w = fresh(P(K)), fresh(P(K))
      num = lambda k: (lambda idx: mul(Ge(idx), App('x', idx, c)))(nbh(o, d, i, k, stride, nempty))
      den = lambda k: Ge(nbh(o, d, i, k, stride, nempty))
      return mul(mk_sum([v], num(tab(P(v)))),
                 powp(mk_sum([w], den(tab(P(w)))) + Fraction(1, 10 ** 8), -1))
    check_equal(r, [rows, C], spec, 'average over the existing neighbours', dtype='float32')
  return f


def nbh(o, d, i, k, stride, nempty):
  """Row of the k-th neighbour in the (compact) data, -1 if none."""
  if stride == 2:
    nb = o.nb(d, i * 8, P(k))
  elif nempty:
    nb = o.nb(d, o.sel(d, i), P(k))
  else:
    nb = o.nb(d, i, P(k))
  if nempty:
    return Ite(Ge(nb), o.ch(d, nb), P(-1))
  return nb


for _k in ('333', '222'):
  for _s in (1, 2):
    for _n in (False, True):
      for _c in (False, True):
        ob('P11', 'avg_pool kernel=%s stride=%d nempty=%d module=%d' % (_k, _s, _n, _c))(
            avgpool(2, 4, _k, _s, _n, _c))


def globalpool(F, d, nempty, cls):
  def f():
    o, C = setup(F)
    x = feat('x', [o.N(d, nempty), C])
    if cls:
      r = call(call(anchor('ocnn.nn:OctreeGlobalPool'), nempty), x, o.obj, d)
    else:
      r = call(anchor('ocnn.nn:octree_global_pool'), x, o.obj, d, nempty)

    def spec(b, c):
      n = o.N(d, nempty)
      v, w = fresh(n), fresh(n)
      bid = lambda v: Eq(tm.mk_slc(o.key(d, o.sel(d, P(v)) if nempty else P(v)), 48, None) - b)
      num = mk_sum([v], mul(bid(v), App('x', P(v), c)))
      cnt = mk_sum([w], bid(w))
      return mul(num, powp(Ite(Ge(cnt - 1), cnt, P(1)), -1))
    check_equal(r, [o.B, C], spec, 'per sample mean over its nodes (zero without nodes)', dtype='float32')
  return f


for _d in (2, 3, 4):
  for _n in (False, True):
    for _c in (False, True):
      ob('P11', 'global_pool d=%d nempty=%d module=%d' % (_d, _n, _c))(globalpool(2, _d, _n, _c))
