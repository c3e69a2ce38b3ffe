"""P22: scatter, scan, grid and division helpers."""
from .common import *

FR = tm.Fraction


def models(**kw):
  out = []
  for s in range(4):
    d = {}
    for k, v in kw.items():
      d[k] = (lambda *a, v=v, s=s: v(s, *[int(x) for x in a]))
    out.append(d)
  set_models(out)


def rnd(lo, hi):
  import random
  return lambda s, *a: random.Random('%d %r' % (s, a)).randrange(lo, hi)


def scatter(rank, dim, mode, dt, empty=False):
  """mode: size (dim_size given), out (destination given), min (neither)."""
  def f():
    N = [sym('N%d' % i) for i in range(rank)]
    K = sym('K')
    ax = dim % rank
    if empty:
      N[ax] = P(0)
    x = feat('x', N, dt)
    ind = feat('ind', [N[ax]], 'int64', lo=0, hi=K - 1)
    models(N0=lambda s: 2 + s, N1=lambda s: 3, N2=lambda s: 2, K=lambda s: 3, ind=rnd(0, 3),
           y=lambda s, *a: sum(a) + 1)
    dims = list(N)
    dims[ax] = K
    kw = {}
    if mode == 'size':
      kw['dim_size'] = tn.mk_scalar(K)
    elif mode == 'out':
      kw['out'] = feat('y', dims, dt, origin=())
    if mode == 'pos':
      r = call(anchor('ocnn.utils:scatter_add'), x, ind, dim, None, tn.mk_scalar(K))
    else:
      r = call(anchor('ocnn.utils:scatter_add'), x, ind, dim=dim, **kw)

    def spec(*ix):
      v = fresh(N[ax])
      src = list(ix)
      src[ax] = P(v)
      if empty:
        return App('y', *ix) if mode == 'out' else P(0)
      t = mk_sum([v], mul(Eq(App('ind', P(v)) - ix[ax]), App('x', *src)))
      return t + App('y', *ix) if mode == 'out' else t
    check_equal(r, dims, spec, 'every bin is the sum of the source entries indexed to it', dtype=dt)
  return f


for _r in (1, 2, 3):
  for _d in range(-_r, _r):
    for _m in ('size', 'out', 'pos'):
      for _t in ('float32', 'float64'):
        ob('P22', 'scatter_add rank=%d dim=%d mode=%s %s' % (_r, _d, _m, _t))(scatter(_r, _d, _m, _t))
      ob('P22', 'scatter_add of nothing rank=%d dim=%d mode=%s' % (_r, _d, _m))(scatter(_r, _d, _m, 'float32', True))


def scatter_full(dim):
  """An index of the full shape of the source."""
  def f():
    N, C, K = sym('N'), sym('C'), sym('K')
    x = feat('x', [N, C])
    ind = feat('ind', [N, C], 'int64', lo=0, hi=K - 1)
    models(N=lambda s: 3, C=lambda s: 2, K=lambda s: 3, ind=rnd(0, 3))
    r = call(anchor('ocnn.utils:scatter_add'), x, ind, dim=dim, dim_size=tn.mk_scalar(K))
    n = (N, C)[dim]

    def spec(i, j):
      v = fresh(n)
      s = (P(v), j) if dim == 0 else (i, P(v))
      return mk_sum([v], mul(Eq(App('ind', *s) - (i, j)[dim]), App('x', *s)))
    check_equal(r, [K, C] if dim == 0 else [N, K], spec, 'bins along dim %d of a full index' % dim)
  return f


for _d in (0, 1):
  ob('P22', 'scatter_add full index dim=%d' % _d)(scatter_full(_d))


def scatter_min():
  """The smallest output: one more than the largest index."""
  N = sym('N')
  x = feat('x', [N])
  ind = feat('ind', [N], 'int64', lo=0, hi=sym('K') - 1)
  models(N=lambda s: 3 + s, K=lambda s: 3, ind=rnd(0, 3))
  r = call(anchor('ocnn.utils:scatter_add'), x, ind)
  v = fresh(N)
  k = tm.Red('max', lam(lambda i: App('ind', i), N)) + 1

  def spec(i):
    w = fresh(N)
    return mk_sum([w], mul(Eq(App('ind', P(w)) - i), App('x', P(w))))
  check_equal(r, [k], spec, 'the default size is the largest index plus one')


ob('P22', 'scatter_add default size')(scatter_min)


def scan(rank, dim, exclusive, dt):
  def f():
    N = [sym('N%d' % i) for i in range(rank)]
    ax = dim % rank
    x = feat('x', N, dt)
    models(N0=lambda s: 2 + s, N1=lambda s: 3)
    if exclusive:
      r = call(anchor('ocnn.utils:cumsum'), x, dim, exclusive=True)
    else:
      r = call(anchor('ocnn.utils:cumsum'), x, dim)
    dims = list(N)
    dims[ax] = N[ax] + 1 if exclusive else N[ax]

    def spec(*ix):
      v = fresh(N[ax])
      s = list(ix)
      s[ax] = P(v)
      return mk_sum([v], mul(Ge(ix[ax] - P(v) - (1 if exclusive else 0)), App('x', *s)))
    check_equal(r, dims, spec, 'scan along dim %d' % dim)
  return f


for _r in (1, 2):
  for _d in range(-_r, _r):
    for _e in (False, True):
      for _t in ('int64', 'float32'):
        ob('P22', 'cumsum rank=%d dim=%d exclusive=%d %s' % (_r, _d, _e, _t))(scan(_r, _d, _e, _t))


def grid(lo, hi):
  def f():
    r = call(anchor('ocnn.utils:range_grid'), lo, hi)
    rng = range(lo, hi + 1)
    check_const(r, [len(rng) ** 3, 3], [c for x in rng for y in rng for z in rng for c in (x, y, z)],
                'grid cells in x-major order including both ends')
    check_dtype(r, 'int64', 'grid')
  return f


for _l, _h in ((0, 0), (0, 1), (-1, 1), (-1, 2), (0, 3), (-2, 3), (2, 4)):
  ob('P22', 'range_grid %d..%d' % (_l, _h))(grid(_l, _h))


def symgrid():
  M = sym('M')
  models(M=lambda s: s + 1)
  r = call(anchor('ocnn.utils:range_grid'), 0, tn.mk_scalar(M - 1))

  def spec(i, c):
    x, y, z = tm.Div(i, mul(M, M)), tm.Mod(tm.Div(i, M), M), tm.Mod(i, M)
    return addn([mul(Eq(c), x), mul(Eq(c - 1), y), mul(Eq(c - 2), z)])
  check_equal(r, [tm.mul(M, tm.mul(M, M)), 3], spec, 'grid of any size')


ob('P22', 'range_grid symbolic')(symgrid)


def tdiv(dt, k):
  def f():
    N = sym('N')
    x = feat('x', [N], dt)
    import random
    models(N=lambda s: 9, x=lambda s, i: random.Random('%d%d' % (s, i)).randrange(-40, 40))
    r = call(anchor('ocnn.utils:trunc_div'), x, k)
    q = tm.Trunc(tm.scale(App('x', P(0)), FR(1, k))) if False else None

    def spec(i):
      v = App('x', i)
      if dt.startswith('int'):
        a = tm.Div(v, P(k)) if k > 0 else None
        # towards zero: floor for v >= 0, -floor(-v/k) otherwise
        return Ite(Ge(v), a, -tm.Div(-v, P(k)))
      w = tm.scale(v, FR(1, k))
      return Ite(Ge(w), tm.Floor(w), -tm.Floor(-w))
    check_equal(r, [N], spec, 'division truncates towards zero', dtype=dt)
  return f


for _t in ('int64', 'int32', 'float32'):
  for _k in (1, 2, 3, 8):
    ob('P22', 'trunc_div %s by %d' % (_t, _k))(tdiv(_t, _k))


def resize(vals, num):
  def f():
    l = list(vals)
    r = call(anchor('ocnn.utils:resize_with_last_val'), l, num) if num else call(
        anchor('ocnn.utils:resize_with_last_val'), l)
    n = num or 3
    want = list(vals) + [vals[-1]] * (n - len(vals))
    if [int(tn.py2poly(x).const()) for x in r] != want:
      fail('resize_with_last_val(%s, %s) yields %s, expected %s' % (vals, num, r, want))
    ok('resize_with_last_val(%s, %s)' % (vals, num))
  return f


for _v, _n in (([3], 0), ([1, 2], 0), ([1, 2, 3], 0), ([1], 1), ([4, 5], 5)):
  ob('P22', 'resize_with_last_val %s %d' % (_v, _n))(resize(_v, _n))


def l2s():
  for l in ([3, 3, 3], [2], [1, 0, 3, 1]):
    r = call(anchor('ocnn.utils:list2str'), list(l))
    if r != ''.join(map(str, l)):
      fail('list2str(%s) yields %r' % (l, r))
  ok('list2str')


ob('P22', 'list2str')(l2s)
