"""P12: nearest and linear interpolation, upsampling."""
import random
from .common import *

FR = tm.Fraction


def setup(D=3, F=1):
  o = Oct(dr.interp(), D, F, neigh=False)
  set_models(octree_models(D, F, seeds=range(6), C=small, Q=lambda s: 6))
  return o


def points(o, d, lo, hi, half, unit=False, dt='float32', dev=None):
  """Query points (integer part in [lo, hi]) + fraction (+ 1/2 for linear)."""
  Q = sym('Q')
  declare('qi', 'i', lo, hi)
  declare('qf', 'f', 0, 1 - FR(1, 2 ** 40))
  declare('qb', 'i', 0, o.B - 1)
  for s, m in enumerate(dr.CUR.models):
    R = lambda *a, s=s: random.Random('%r %d' % (a, s))
    # (many coordinates on the lower end of the domain and on cell boundaries)
    m['qi'] = lambda i, c, R=R: R(int(i), int(c)).choice([0] * (hi - lo) + list(range(lo, hi + 1)))
    m['qf'] = lambda i, c, R=R: FR(max(R(int(i), int(c), 1).randrange(-7, 8), 0), 8)
    m['qb'] = lambda i, R=R: R(int(i)).randrange(2)

  def col(c):
    def f(i):
      v = App('qi', i, P(c)) + App('qf', i, P(c)) + (FR(1, 2) if half else 0)
      return tm.scale(v, FR(2, 2 ** d)) - 1 if unit else v
    return f
  return columns('q', Q, [col(c) for c in range(3)] + [lambda i: App('qb', i)], dt, dev)


def inside(d, qs):
  n = 2 ** d
  t = P(1)
  for q in qs:
    t = mul(t, mul(Ge(q), Ge(n - 1 - q)))
  return t


def nearest_spec(o, d, nempty, bound):
  def spec(i, c):
    q = [App('qi', i, P(k)) for k in range(3)]
    r = find(o, d, morton(*q, d) + App('qb', i) * 2 ** 48, nempty)
    v = mul(Ge(r), App('x', r, c))
    return mul(inside(d, q), v) if bound else v
  return spec


def linear_spec(o, d, nempty, bound, q=None, f=None, b=None):
  q = q or (lambda i, k: App('qi', i, P(k)))
  f = f or (lambda i, k: App('qf', i, P(k)))
  b = b or (lambda i: App('qb', i))

  def spec(i, c):
    num, den = [], []
    for g in range(8):
      g = ((g >> 2) & 1, (g >> 1) & 1, g & 1)
      at = [q(i, k) + g[k] for k in range(3)]
      w = P(1)
      for k in range(3):
        w = mul(w, f(i, k) if g[k] else 1 - f(i, k))
      r = find(o, d, morton(*at, d) + b(i) * 2 ** 48, nempty)
      w = mul(w, Ge(r))
      if bound:
        w = mul(w, inside(d, at))
      num.append(mul(w, App('x', r, c)))
      den.append(w)
    return mul(addn(num), powp(addn(den) + FR(1, 10 ** 12), -1))
  return spec


def nearest(d, nempty, bound, how, dt='float32'):
  def f():
    o = setup()
    C = sym('C')
    lo, hi = (-2, 2 ** d + 1) if bound else (0, 2 ** d - 1)
    p = points(o, d, lo, hi, False, how == 'unit', dt)
    x = feat('x', [o.N(d, nempty), C], dt)
    r = run(how, 'nearest', x, o, d, p, nempty, bound)
    check_equal(r, [sym('Q'), C], nearest_spec(o, d, nempty, bound),
                'feature of the node containing the point, zero if there is none', dtype=dt)
  return f


def run(how, method, x, o, d, p, nempty, bound):
  if how == 'fn':
    return call(anchor('ocnn.nn:octree_%s_pts' % method), x, o.obj, d, p, nempty, bound)
  m = call(anchor('ocnn.nn:OctreeInterp'), method, nempty, bound, how == 'unit')
  return call(m, x, o.obj, d, p)


def linear(d, nempty, bound, how, dt='float32'):
  def f():
    o = setup()
    C = sym('C')
    lo, hi = (-1, 2 ** d - 1) if bound else (0, 2 ** d - 2)
    p = points(o, d, lo, hi, True, how == 'unit', dt)
    x = feat('x', [o.N(d, nempty), C], dt)
    r = run(how, 'linear', x, o, d, p, nempty, bound)
    check_equal(r, [sym('Q'), C], linear_spec(o, d, nempty, bound),
                'renormalised trilinear average of the existing surrounding nodes', dtype=dt, eager=True)
  return f


for _d in (1, 2, 3):
  for _n in (False, True):
    for _b in (False, True):
      for _h in ('fn', 'module', 'unit'):
        _t = 'quick' if (_d, _h) in ((2, 'fn'), (3, 'unit')) or not _b and _h == 'module' else 'thorough'
        ob('P12', 'nearest d=%d nempty=%d bound=%d %s' % (_d, _n, _b, _h), _t)(nearest(_d, _n, _b, _h))
        if _d > 1 or _b:
          ob('P12', 'linear d=%d nempty=%d bound=%d %s' % (_d, _n, _b, _h), _t)(linear(_d, _n, _b, _h))


def linear_contract(o, x, d, nempty):
  """octree_linear_pts as proved above, opaque in the query position."""
  declare('lin', 'f')
  declare('lout', 'f')

  def spec(data, octree, depth, pts, nempty_=None, bound_check=False, **kw):
    if data is not x or octree is not o.obj or depth != d or kw.get('nempty', nempty_) is not nempty:
      raise Undecided('interpolation of other data')
    if isinstance(bound_check, (S, T)):
      raise Undecided('bound_check')

    def val(idx):
      i, c = idx
      q = [P(pts._at((i, P(k)))) for k in range(4)]
      v = App('lin', *(q + [c]))
      if bound_check:
        return v
      # without the check, corners outside the volume are unspecified
      lo, hi = [v - FR(1, 2) for v in q[:3]], [FR(2 ** d) - FR(1, 2) - v for v in q[:3]]
      t = P(1)
      for a in lo + hi:
        t = mul(t, Ge(a))
      return mul(t, v) + mul(1 - t, App('lout', *(q + [c])))
    return tn.new([pts._dims[0], data._dims[1]], data._dt, data._dev, val)
  dr.contract('ocnn.nn:octree_linear_pts',
              lambda **k: spec(**{('nempty_' if n == 'nempty' else n): v for n, v in k.items()}))


def up(method, d, t, nempty, how):
  """Features of level d at the centres of the nodes of level t."""
  def f():
    o = setup()
    C = sym('C')
    x = feat('x', [o.N(d, nempty), C])
    if method == 'linear' and t > d:
      linear_contract(o, x, d, nempty)
    if how == 'fn':
      r = call(anchor('ocnn.nn.octree_interp:octree_nearest_upsample'), x, o.obj, d, nempty)
    else:
      m = call(anchor('ocnn.nn:OctreeUpsample'), method, nempty)
      r = call(m, x, o.obj, d) if how == 'next' else call(m, x, o.obj, d, t)
    if t == d:
      check_equal(r, [o.N(d, nempty), C], lambda i, c: App('x', i, c), 'same depth: identity')
      return
    key = lambda i: o.key(t, o.sel(t, i) if nempty else i)
    if method == 'nearest' and t == d + 1:
      # the parent of node 8e+j is the e-th occupied node
      def spec(i, c):
        e = tm.Div(o.sel(t, i) if nempty else i, P(8))
        return App('x', e if nempty else o.sel(d, e), c)
    elif method == 'nearest':
      def spec(i, c):
        k = key(i)
        q = tm.mk_slc(tm.mk_slc(k, 0, 48), 3 * (t - d), None) + tm.mk_slc(k, 48, None) * 2 ** 48
        r = find(o, d, q, nempty)
        return mul(Ge(r), App('x', r, c))
    else:
      n = 2 ** (t - d)

      def pos(i, k):
        cell = addn([tm.scale(bit(key(i), 3 * j + 2 - k), 2 ** j) for j in range(t)])
        return tm.scale(cell + FR(1, 2), FR(1, n))
      spec = lambda i, c: App('lin', *([pos(i, k) for k in range(3)] +
                                       [tm.mk_slc(key(i), 48, None), c]))
    check_equal(r, [o.N(t, nempty), C], spec, '%s upsampling from level %d to %d' % (method, d, t),
                dtype='float32', eager=True)
  return f


for _n in (False, True):
  for _d in (1, 2):
    for _h in ('fn', 'next', 'given'):
      ob('P12', 'upsample nearest %d->%d nempty=%d %s' % (_d, _d + 1, _n, _h))(
          up('nearest', _d, _d + 1, _n, _h))
  ob('P12', 'upsample nearest 1->3 nempty=%d' % _n)(up('nearest', 1, 3, _n, 'given'))
  ob('P12', 'upsample nearest 2->2 nempty=%d' % _n)(up('nearest', 2, 2, _n, 'given'))
  ob('P12', 'upsample linear 2->2 nempty=%d' % _n)(up('linear', 2, 2, _n, 'given'))
  for _d, _t in ((1, 2), (2, 3), (1, 3)):
    ob('P12', 'upsample linear %d->%d nempty=%d' % (_d, _t, _n))(up('linear', _d, _t, _n, 'given'))
