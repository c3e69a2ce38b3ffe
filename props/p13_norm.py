"""P13: group and instance normalisation."""
from .common import *

D, F = 3, 1
EPS = tm.Fraction(1e-5).limit_denominator(10 ** 9)


def norm(cls, C, G, d, nempty, dt='float32'):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False)
    set_models(octree_models(D, F, seeds=range(6)))
    if cls == 'OctreeGroupNorm':
      m = call(anchor('ocnn.nn:OctreeGroupNorm'), C, G, nempty)
    else:
      m = call(anchor('ocnn.nn:OctreeInstanceNorm'), C, nempty)
    w = feat('w', [1, C], dt)
    b = feat('bias', [1, C], dt)
    setp(m, 'weights', w)
    setp(m, 'bias', b)
    n = o.N(d, nempty)
    x = feat('x', [n, C], dt)
    r = call(m, x, o.obj, d)
    g = C // G
    bid = lambda i: tm.mk_slc(o.key(d, o.sel(d, i) if nempty else i), 48, None)

    def stats(s, fn, c):
      """Sum of fn over the nodes of sample s and the channels of c's group / count."""
      v, w = fresh(n), fresh(n)
      same = Eq(bid(P(v)) - s)
      lo = tm.Div(c, P(g)) * g
      k = fresh(P(g))
      num = mk_sum([k], mk_sum([v], mul(same, fn(P(v), lo + (P(k) if g > 1 else 0)))))
      cnt = mk_sum([w], Eq(bid(P(w)) - s))
      return mul(num, powp(tm.scale(cnt, g) + EPS, -1))

    def spec(i, c):
      cen = lambda u, k: App('x', u, k) - stats(bid(u), lambda v, q: App('x', v, q), k)
      var = stats(bid(i), lambda v, q: mul(cen(v, q), cen(v, q)), c)
      y = mul(cen(i, c), powp(tm.Fun('sqrt', var + EPS), -1))
      return mul(y, App('w', P(0), c)) + App('bias', P(0), c)
    check_equal(r, [n, C], spec, 'normalised by the statistics of the sample and channel group', dtype=dt,
                eager=True)
  return f


for _C, _G in ((4, 2), (4, 1), (6, 3), (3, 3)):
  for _d in (1, 2, 3):
    for _n in (False, True):
      ob('P13', 'group norm C=%d G=%d d=%d nempty=%d' % (_C, _G, _d, _n))(
          norm('OctreeGroupNorm', _C, _G, _d, _n))
for _d in (1, 3):
  for _n in (False, True):
    ob('P13', 'instance norm C=3 d=%d nempty=%d' % (_d, _n))(norm('OctreeInstanceNorm', 3, 3, _d, _n))
