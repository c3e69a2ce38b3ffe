"""P20: transformations and selections of point clouds."""
import random
from .common import *

FR = tm.Fraction
ATTR = ('normals', 'features', 'labels', 'batch_id')


def cloud(dt='float32', attrs=ATTR, C=2, bs=3, rank1=False, N=None, **kw):
  """A point cloud with arbitrary data of the given attributes."""
  N = sym('N') if N is None else N
  d = {'points': feat('pts', [N, 3], dt)}
  if 'normals' in attrs:
    d['normals'] = feat('nrm', [N, 3], dt)
  if 'features' in attrs:
    d['features'] = feat('fts', [N, C], dt)
  if 'labels' in attrs:
    d['labels'] = feat('lbl', [N] if rank1 else [N, 1], 'int64', lo=0)
  if 'batch_id' in attrs:
    d['batch_id'] = feat('bid', [N] if rank1 else [N, 1], 'int64', lo=0)
  p = call(anchor('ocnn.octree:Points'), **d, batch_size=bs, **kw)
  return p, d, N


def models(seeds=5, **kw):
  out = []
  for s in range(seeds):
    r = {'N': (lambda s=s: 1 + s)}
    for n in ('pts', 'nrm', 'fts'):
      r[n] = (lambda n, s: lambda *a: FR(random.Random('%s %d %r' % (n, s, [int(x) for x in a]))
                                         .randrange(-12, 13), 8))(n, s)
    r['lbl'] = (lambda s: lambda *a: random.Random('l %d %r' % (s, int(a[0]))).randrange(5))(s)
    r['bid'] = (lambda s: lambda *a: int(a[0]) % 3)(s)
    for k, v in kw.items():
      r[k] = (lambda v, s: lambda *a: v(s, *[int(x) for x in a]))(v, s)
    out.append(r)
  set_models(out)


HOST = []


def arg(name, shape=(3,), dt='float32'):
  """A parameter of a transformation, on the host if asked for."""
  return feat(name, list(shape), dt, 'cpu' if HOST else None)


def host(fn):
  """The harness with a parameter that stays on the host."""
  def f():
    HOST.append(1)
    try:
      fn()
    finally:
      del HOST[:]
  return f


def rv(s, *a):
  return FR(random.Random('v %d %r' % (s, a)).randrange(-9, 10) or 5, 4)


def px(i, k):
  return App('pts', i, P(k))


def nx(i, k):
  return App('nrm', i, P(k))


def kept(p, d, N, skip=()):
  """The annotations are the untouched ones."""
  for a, n in (('features', 'fts'), ('labels', 'lbl'), ('batch_id', 'bid')):
    if a in d and a not in skip:
      t = p.d[a]
      if not isinstance(t, T):
        fail('%s is lost' % a)
      C = d[a]._dims[-1] if len(d[a]._dims) > 1 else P(1)
      check_equal(t, [N, C], lambda i, k: App(n, i, k) if len(d[a]._dims) > 1 else App(n, i),
                  '%s unchanged' % a)
    elif a not in d and p.d[a] is not None:
      fail('%s appears from nowhere' % a)
  if p.d['batch_size'] != 3:
    fail('batch_size changed')


def normals(p, d, N, spec, what, **kw):
  if 'normals' not in d:
    if p.d['normals'] is not None:
      fail('normals appear from nowhere')
    return
  if not isinstance(p.d['normals'], T):
    fail('normals are lost')
  check_equal(p.d['normals'], [N, 3], spec, what, **kw)


def pick(k, vals):
  c = k.const()
  if c is not None:
    return vals[int(c)]
  return addn([mul(Eq(k - j), v) for j, v in enumerate(vals)])


SETS = [ATTR, (), ('normals',), ('features', 'labels'), ('batch_id',)]


# ------------------------------------------------------------------ rotation
def trig(name, ang, k):
  return tm.Fun(name, App(ang, P(k)))


def rotmat():
  """Column-vector rotation matrices about x, y, z; applied x first."""
  c = [trig('cos', 'ang', k) for k in range(3)]
  s = [trig('sin', 'ang', k) for k in range(3)]
  one, z = P(1), P(0)
  rx = [[one, z, z], [z, c[0], -s[0]], [z, s[0], c[0]]]
  ry = [[c[1], z, s[1]], [z, one, z], [-s[1], z, c[1]]]
  rz = [[c[2], -s[2], z], [s[2], c[2], z], [z, z, one]]
  mm = lambda a, b: [[addn([mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)]
                     for i in range(3)]
  return mm(rz, mm(ry, rx))


def rotate(attrs, dt):
  def f():
    p, d, N = cloud(dt, attrs)
    models(ang=rv)
    p.m('rotate', arg('ang'))
    R = rotmat()
    rot = lambda g: lambda i, k: pick(k, [addn([mul(R[j][m], g(i, m)) for m in range(3)])
                                          for j in range(3)])
    check_equal(p.d['points'], [N, 3], rot(px), 'points are rotated about x, then y, then z',
                dtype=dt, eager=True)
    normals(p, d, N, rot(nx), 'normals are rotated with the points', eager=True)
    kept(p, d, N)
  return f


# ------------------------------------------------------------------- scaling
def by_eqs(p):
  """Uses the equalities assumed on the current path."""
  mp = {}
  facts = list(tm.Ctx.facts)
  keys = {q.key if hasattr(q, 'key') else q for q in facts}
  for q in facts:
    if (-q) not in facts:
      continue
    q = tm.subst(q, mp) if mp else q
    for m, c in q.terms:
      if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and abs(c) == 1:
        a = m[0][0]
        mp[a] = tm.scale(P(a) * c - q, c) if c == 1 else P(a) + q
        break
  return tm.subst(p, mp) if mp else p


def same_as(t, N, spec, what, dt):
  check_dims(t, [N, 3], what)
  check_dtype(t, dt, what)
  for k in range(3):
    compare(lambda ix: by_eqs(t._at((ix[0], P(k)))), lambda ix: by_eqs(spec(ix[0], P(k))),
            [P(tm.named('row', N))], [N], what, t._st.loc)


def factor(s, a):
  """Equal, partly equal and distinct factors, with and without mirrorings."""
  if s >= 18:
    u = (FR(2), FR(1), FR(-1), FR(1, 2), FR(3), FR(0.1), FR(10))
    return u[s - 18] if s < 18 + len(u) else (1, 2, 2, -1)[(s + int(a)) % 4]
  same = ((0, 0, 0), (0, 0, 1), (0, 1, 0), (1, 0, 0), (0, 1, 2))[s % 5]
  v = rv(s, same[int(a)])
  return v if s % 3 == 0 else abs(v)


def scale(attrs, dt):
  def f():
    p, d, N = cloud(dt, attrs)
    # equal, partly equal and distinct factors
    models(fac=factor, seeds=28)
    fk = lambda k: App('fac', P(k))
    p.m('scale', arg('fac', dt=dt))
    same_as(p.d['points'], N, lambda i, k: mul(px(i, k), App('fac', k)), 'points are scaled per axis', dt)
    if 'normals' in d:
      t = p.d['normals']
      if not isinstance(t, T):
        fail('normals are lost')
      keep = all((t._at((P(q), P(k))) - nx(q, k)).const() == 0 for k in range(3)
                 for q in [tm.named('row', N)])
      if keep:
        # the directions stay only if the factor is uniform
        for k in (1, 2):
          compare(lambda ix: by_eqs(fk(k)), lambda ix: by_eqs(fk(0)), [], [],
                  'normals stay only for a uniform factor')
        for k in range(3):
          compare(lambda ix: tn.apply_truth(by_eqs(tn.apply_truth(Ge(fk(k))))), lambda ix: P(1), [], [],
                  'normals stay only for a factor that mirrors no axis')
        check_dims(t, [N, 3], 'normals')
      else:
        inv = lambda i, k: mul(nx(i, k), powp(App('fac', P(k)), -1))

        def spec(i, k):
          v = fresh(P(3))
          iv = mul(nx(i, P(v)), powp(App('fac', P(v)), -1))
          n2 = tm.Fun('sqrt', mk_sum([v], mul(iv, iv)))
          e = tm.Fun('max2', n2, P(FR('1e-12')))
          return mul(inv(i, k), powp(e, -1))
        same_as(t, N, spec, 'normals are scaled by the inverse factor and normalised', dt)
    else:
      normals(p, d, N, None, '')
    kept(p, d, N)
  return f


def scale_zero(k):
  def f():
    p, d, N = cloud()
    models(fac=lambda s, *a: 0 if a[0] == k else rv(s, *a))
    tm.Ctx.facts.append(-mul(App('fac', P(k)), App('fac', P(k))))
    fac = tn.new([P(3)], 'float32', tn.dev_of(defaults('float32', None)[1]),
                 lambda ix: mul(App('fac', ix[0]), 1 - Eq(ix[0] - k)), origin=('input', 'fac'))
    rejected(lambda: p.m('scale', fac), 'a zero scale factor is rejected')
  return f


# --------------------------------------------------------- translation, flip
def translate(attrs, dt):
  def f():
    p, d, N = cloud(dt, attrs)
    models(dis=rv)
    p.m('translate', arg('dis', dt=dt))
    check_equal(p.d['points'], [N, 3], lambda i, k: px(i, k) + App('dis', k), 'points are moved',
                dtype=dt)
    normals(p, d, N, lambda i, k: nx(i, k), 'normals unchanged')
    kept(p, d, N)
  return f


def flip(attrs, axes, dt):
  def f():
    p, d, N = cloud(dt, attrs)
    models()
    p.m('flip', axes)
    s = [1 if axes.count(a) % 2 == 0 else -1 for a in 'xyz']
    sg = lambda k: pick(k, [P(v) for v in s])
    check_equal(p.d['points'], [N, 3], lambda i, k: mul(px(i, k), sg(k)), 'coordinates are negated',
                dtype=dt, eager=True)
    normals(p, d, N, lambda i, k: mul(nx(i, k), sg(k)), 'normals are flipped with the points',
            eager=True)
    kept(p, d, N)
  return f


def orient(attrs, axis, dt):
  def f():
    p, d, N = cloud(dt, attrs)
    models()
    if axis is None:
      p.m('orient_normal')
    else:
      p.m('orient_normal', axis)
    a = 'xyz'.index(axis or 'x') if axis != 'xyz' else None
    check_equal(p.d['points'], [N, 3], lambda i, k: px(i, k), 'points unchanged', dtype=dt)
    pos = lambda v: 1 - Ge(-v)
    if a is None:
      spec = lambda i, k: tm.Fun('abs', nx(i, k))
    else:
      spec = lambda i, k: nx(i, k) * (2 * pos(nx(i, a)) - 1)
    normals(p, d, N, spec, 'normals point along the axis', eager=True)
    kept(p, d, N)
  return f


def normalize(attrs, dt, sc):
  def f():
    p, d, N = cloud(dt, attrs)
    models(lo=lambda s, *a: -rv(s, *a) ** 2 - 1, hi=lambda s, *a: rv(s, *a) ** 2 + 1)
    lo, hi = arg('lo', dt=dt), arg('hi', dt=dt)
    if sc is None:
      p.m('normalize', lo, hi)
    else:
      p.m('normalize', lo, hi, sc)
    s = FR(sc or 1)
    size = tm.Red('max', lam(lambda k: App('hi', k) - App('lo', k), P(3))) + FR('1e-6')
    spec = lambda i, k: mul(mul(px(i, k) - tm.scale(App('lo', k) + App('hi', k), FR(1, 2)),
                                tm.scale(powp(size, -1), 2 * s)), P(1))
    check_equal(p.d['points'], [N, 3], spec, 'the box centre moves to zero, its longest side to 2 scale',
                dtype=dt, eager=True)
    normals(p, d, N, lambda i, k: nx(i, k), 'normals unchanged')
    kept(p, d, N)
  return f


# ----------------------------------------------------------------- selection
def selected(p, d, N, l, n, what):
  at = lambda e: mk_sel(0, l, e)
  check_equal(p.d['points'], [n, 3], lambda i, k: App('pts', at(i), k), what + ': points')
  for a, nm in (('normals', 'nrm'), ('features', 'fts'), ('labels', 'lbl'), ('batch_id', 'bid')):
    if a in d:
      if not isinstance(p.d[a], T):
        fail('%s: %s are lost' % (what, a))
      check_equal(p.d[a], [n, d[a]._dims[1]], lambda i, k: App(nm, at(i), k), what + ': ' + a)
    elif p.d[a] is not None:
      fail('%s: %s appear from nowhere' % (what, a))
  if p.d['batch_size'] != 3:
    fail('%s: batch_size is lost' % what)
  if p.d['device'] != d['points']._dev:
    fail('%s: the device is %s' % (what, p.d['device']))


def same_cloud(p, d, N):
  """The sliced object itself is unchanged."""
  check_equal(p.d['points'], [N, 3], lambda i, k: App('pts', i, k), 'the sliced cloud is unchanged')


def inside(lo, hi):
  return lambda i: mul(*[mul(1 - Ge(lo - px(i, k)), 1 - Ge(px(i, k) - hi)) for k in (0, 1)] +
                       [mul(1 - Ge(lo - px(i, 2)), 1 - Ge(px(i, 2) - hi))]) if False else \
      mul(mul(mul(1 - Ge(lo - px(i, 0)), 1 - Ge(px(i, 0) - hi)),
              mul(1 - Ge(lo - px(i, 1)), 1 - Ge(px(i, 1) - hi))),
          mul(1 - Ge(lo - px(i, 2)), 1 - Ge(px(i, 2) - hi)))


def getitem(attrs, kind):
  def f():
    p, d, N = cloud('float32', attrs)
    if kind == 'mask':
      models(msk=lambda s, i: random.Random('%d %d' % (s, i)).random() < .5)
      m = feat('msk', [N], 'bool')
      q = p[m] if not isinstance(p, ip.IInstance) else call(p.m_get('__getitem__'), m) \
          if hasattr(p, 'm_get') else p.m('__getitem__', m)
      l = tn.mask_lam(m)
      selected(q, d, N, l, mk_cnt(l), 'slicing by a mask')
    else:
      M = sym('M')
      models(M=lambda s: 3, idx=lambda s, i: (i + s) % (1 + s))
      ix = feat('idx', [M], 'int64', lo=0, hi=N - 1)
      q = p.m('__getitem__', ix)
      check_equal(q.d['points'], [M, 3], lambda i, k: App('pts', App('idx', i), k), 'slicing by indices')
      for a, nm in (('normals', 'nrm'), ('features', 'fts'), ('labels', 'lbl'), ('batch_id', 'bid')):
        if a in d:
          if not isinstance(q.d[a], T):
            fail('slicing: %s are lost' % a)
          check_equal(q.d[a], [M, d[a]._dims[1]], lambda i, k: App(nm, App('idx', i), k),
                      'slicing by indices: ' + a)
    same_cloud(p, d, N)
  return f


def clip(attrs, args):
  def f():
    p, d, N = cloud('float32', attrs)
    models()
    m = p.m('clip', **args)
    lo = P(FR(args.get('min', -1.0))) + FR(args.get('esp', 0.01))
    hi = P(FR(args.get('max', 1.0))) - FR(args.get('esp', 0.01))
    lo, hi = [P(FR(str(args.get(k, v))) + s * FR(str(args.get('esp', 0.01))))
              for k, v, s in (('min', -1.0, 1), ('max', 1.0, -1))]
    ins = inside(lo, hi)
    if not isinstance(m, T) or m._dt != 'bool':
      fail('clip returns %s' % (m._dt if isinstance(m, T) else type(m).__name__))
    check_equal(m, [N], ins, 'the mask selects the points inside the box')
    l = lam(ins, N)
    selected(p, d, N, l, mk_cnt(l), 'clipping')
  return f


def inbox(kind):
  def f():
    p, d, N = cloud()
    models(lo=lambda s, *a: -FR(1, 2), hi=lambda s, *a: FR(3, 4))
    if kind == 'tensor':
      m = p.m('inbox_mask', arg('lo'), arg('hi'))
      lo, hi = (lambda k: App('lo', P(k))), (lambda k: App('hi', P(k)))
    elif kind == 'default':
      m = p.m('inbox_mask')
      lo, hi = (lambda k: P(-1)), (lambda k: P(1))
    else:
      m = p.m('inbox_mask', -0.5, 0.75)
      lo, hi = (lambda k: P(FR(-1, 2))), (lambda k: P(FR(3, 4)))

    def spec(i):
      r = P(1)
      for k in range(3):
        r = mul(r, mul(1 - Ge(lo(k) - px(i, k)), 1 - Ge(px(i, k) - hi(k))))
      return r
    check_equal(m, [N], spec, 'points strictly inside the box')
    same_cloud(p, d, N)
  return f


def construct(rank1, attrs):
  def f():
    p, d, N = cloud('float32', attrs, rank1=rank1)
    models()
    check_equal(p.d['points'], [N, 3], lambda i, k: px(i, k), 'points')
    normals(p, d, N, lambda i, k: nx(i, k), 'normals')
    kept(p, d, N)
    if p.d['device'] != d['points']._dev:
      fail('the device of the cloud is %r' % (p.d['device'],))
    n = p.attr('npt') if hasattr(p, 'attr') else None
  return f


for _a in SETS:
  _n = '+'.join(_a) or 'points only'
  for _dt in ('float32', 'float64'):
    ob('P20', 'rotate %s %s' % (_n, _dt))(rotate(_a, _dt))
    ob('P20', 'scale %s %s' % (_n, _dt))(scale(_a, _dt))
    ob('P20', 'translate %s %s' % (_n, _dt))(translate(_a, _dt))
    for _x in ('x', 'y', 'z', 'xz', 'xyz'):
      ob('P20', 'flip %s %s %s' % (_x, _n, _dt))(flip(_a, _x, _dt))
    for _x in (None, 'x', 'y', 'z', 'xyz'):
      ob('P20', 'orient_normal %s %s %s' % (_x, _n, _dt))(orient(_a, _x, _dt))
    for _s in (None, 0.5, 2.0):
      ob('P20', 'normalize scale=%s %s %s' % (_s, _n, _dt))(normalize(_a, _dt, _s))
  for _k in ('mask', 'index'):
    ob('P20', 'slice by %s %s' % (_k, _n))(getitem(_a, _k))
  for _g in ({}, {'min': -0.5, 'max': 0.75}, {'esp': 0.125}):
    ob('P20', 'clip %s %s' % (sorted(_g.items()), _n))(clip(_a, _g))
  for _r in (False, True):
    ob('P20', 'constructor rank1=%d %s' % (_r, _n))(construct(_r, _a))
for _n, _f in (('rotate', rotate), ('scale', scale), ('translate', translate)):
  ob('P20', '%s by a parameter on the host' % _n)(host(_f(SETS[-1], 'float32')))
for _k in range(3):
  ob('P20', 'scale by zero %d' % _k)(scale_zero(_k))
for _k in ('tensor', 'scalar', 'default'):
  ob('P20', 'inbox_mask %s' % _k)(inbox(_k))
