"""P02/P06: an octree built from points."""
import random
from .common import *

FR = tm.Fraction


def models(D, B=2, **kw):
  out = []
  for s in range(6):
    R = lambda *a, s=s: random.Random('%d %r' % (s, a))
    n = (1, 2, 3, 5, 6, 9)[s]
    wide = s % 2
    out.append({
        'n': lambda n=n: n, 'B': lambda B=B: B, 'CF': lambda: 2,
        'pts': lambda i, c, R=R, w=wide: FR(R('p', int(i) // 2 if w else int(i), int(c)).randrange(-64, 65 if CLOSED else 64), 64)
        + (FR(R('q', int(i), int(c)).randrange(0, 8), 2 ** (D + 8)) if w and not CLOSED else 0),
        'bid': lambda i, *a, R=R: R('b', int(i)).randrange(B),
        'nrm': lambda i, c, R=R: FR(R('n', int(i), int(c)).randrange(-9, 10), 8),
        'fts': lambda i, c, R=R: FR(R('f', int(i), int(c)).randrange(-9, 10), 8)})
  set_models(out)


CLOSED = []     # non-empty: points on the upper boundary of the cube occur


def cloud(B, attrs=(), rank1=False):
  n = sym('n')
  d = {'points': feat('pts', [n, 3], lo=-1)}
  tm.Ctx.fns['pts'].hi = 1 if CLOSED else FR(2 ** 24 - 1, 2 ** 24)
  if 'normals' in attrs:
    d['normals'] = feat('nrm', [n, 3])
  if 'features' in attrs:
    d['features'] = feat('fts', [n, sym('CF')])
  if B != 1:
    d['batch_id'] = feat('bid', [n] if rank1 else [n, 1], 'int64', lo=0, hi=P(B) - 1 if not isinstance(B, int) else B - 1)
    d['batch_size'] = tn.mk_scalar(P(B))
  return call(anchor('ocnn.octree:Points'), **d), n


def cell(i, D, d, B, rank1):
  """Key at level d of the cell that contains point i."""
  x = [tm.Floor(tm.scale(App('pts', i, P(c)) + 1, 2 ** (D - 1))) for c in range(3)]
  if CLOSED:
    x = [tm.Fun('min2', v, P(2 ** D - 1)) for v in x]
  t = []
  for j in range(d):
    for a in range(3):
      t.append(tm.scale(tm.mk_slc(x[a], j + D - d, 1), 2 ** (3 * j + 2 - a)))
  k = addn(t)
  if B != 1:
    k = k + (App('bid', i) if rank1 else App('bid', i, P(0))) * 2 ** 48
  return k


def build(D, F, B, attrs=(), rank1=False):
  o = call(anchor('ocnn.octree:Octree'), D, F, batch_size=tn.mk_scalar(P(B)))
  p, n = cloud(B, attrs, rank1)
  idx = call(anchor('ocnn.octree:Octree.build_octree'), o, p)
  return o, n, idx


def occupied(D, d, B, n, rank1=False):
  """Number of occupied cells of level d, key of the j-th, cell of a point."""
  return tm.distinct(lam(lambda i: cell(i, D, d, B, rank1), n))


def structure(D, F, B, rank1=False):
  def f():
    BB = sym('B', 2, 32767) if B == 'B' else B
    models(D, 2 if B == 'B' else B)
    o, n, idx = build(D, F, BB, (), rank1)
    num, val, pos = occupied(D, D, BB, n, rank1)
    check_equal(idx, [n], pos, 'every point is mapped to the cell that contains it')
    for d in range(D + 1):
      if d <= F:
        N = P(BB) * 8 ** d
        kd = lambda i, d=d: tm.Mod(i, P(8 ** d)) + tm.Div(i, P(8 ** d)) * 2 ** 48
      else:
        pn, pv, _ = occupied(D, d - 1, BB, n, rank1)
        N = pn * 8

        def kd(i, pv=pv, d=d):
          p = pv(tm.Div(i, P(8)))
          return tm.join(tm.mk_slc(p, 0, 3 * d - 3) * 8 + tm.mk_slc(p, 48, None) * 2 ** 48) + tm.Mod(i, P(8))
      check_equal(o.d['keys'][d], [N], kd, 'keys of level %d' % d, dtype='int64')
      compare(lambda ix: tn.py2poly(o.d['nnum'][d]), lambda ix: N, [], [], 'number of nodes of level %d' % d)
      if d < F:
        e = N
        check_equal(o.d['children'][d], [N], lambda i: i, 'children of the full level %d' % d, dtype='int32')
      else:
        e, v, l = occupied(D, d, BB, n, rank1)

        def ch(i, e=e, v=v, kd=kd):
          j = fresh(e)
          return mk_sum([j], mul(Eq(v(P(j)) - kd(i)), P(j) + 1)) - 1
        check_equal(o.d['children'][d], [N], ch, 'children of level %d' % d, dtype='int32')
      compare(lambda ix: tn.py2poly(o.d['nnum_nempty'][d]), lambda ix: e, [], [],
              'number of occupied nodes of level %d' % d)
  return f


for _D, _F in ((1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (4, 2), (5, 2), (5, 5), (6, 3), (8, 4), (10, 3), (11, 2), (16, 2)):
  for _B in (1, 2, 'B'):
    ob('P02', 'build depth %d full depth %d batch %s' % (_D, _F, _B))(structure(_D, _F, _B))

for _B in (2, 'B'):
  ob('P02', 'build flat batch ids batch %s' % _B)(structure(4, 2, _B, True))
for _D in (7, 9, 12, 13, 14, 15):
  for _B in (1, 'B'):
    ob('P02', 'build depth %d full depth 2 batch %s' % (_D, _B))(structure(_D, 2, _B))


def averages(D, F, B, attrs, rank1=False):
  """Signals of the finest occupied nodes."""
  def f():
    BB = sym('B', 2, 32767) if B == 'B' else B
    models(D, 2 if B == 'B' else B)
    o, n, idx = build(D, F, BB, attrs, rank1)
    num, val, pos = occupied(D, D, BB, n, rank1)
    CF = sym('CF')

    def total(g, e):
      v = fresh(n)
      return mk_sum([v], mul(Eq(pos(P(v)) - e), g(P(v))))

    def mean(g, e):
      return mul(total(g, e), powp(total(lambda i: P(1), e), -1))
    check_equal(o.d['points'][D], [num, 3],
                lambda e, c: mean(lambda i: tm.scale(App('pts', i, c) + 1, 2 ** (D - 1)), e),
                'mean of the points of the cell in grid units', dtype='float32')
    for a, t in (('normals', 'nrm'), ('features', 'fts')):
      if a not in attrs:
        if o.d[a][D] is not None:
          fail('%s appear from nowhere' % a)
        ok('no %s' % a)
        continue
      if a == 'features':
        check_equal(o.d[a][D], [num, CF], lambda e, c: mean(lambda i: App('fts', i, c), e),
                    'mean of the features of the cell', dtype='float32')
      else:
        def unit(e, c):
          s = lambda k: total(lambda i: App('nrm', i, k), e)
          k = fresh(P(3))
          l = tm.Fun('sqrt', mk_sum([k], powp(s(P(k)), 2)))
          return mul(s(c), powp(Ite(Ge(l - FR(1, 10 ** 12)), l, P(FR(1, 10 ** 12))), -1))
        check_equal(o.d[a][D], [num, 3], unit, 'normalised sum of the normals of the cell', dtype='float32')
    for a in ('points', 'normals', 'features'):
      for d in range(D):
        if o.d[a][d] is not None:
          fail('%s on level %d' % (a, d))
    ok('signals are stored on the finest level only')
  return f


for _a in ((), ('normals',), ('features',), ('normals', 'features')):
  for _D, _F in ((3, 2), (3, 3), (6, 2)):
    for _B in (1, 'B'):
      ob('P06', 'averages of %s depth %d full depth %d batch %s' % ('+'.join(('points',) + _a), _D, _F, _B))(
          averages(_D, _F, _B, _a))
ob('P06', 'averages flat batch ids')(averages(4, 2, 'B', ('normals', 'features'), True))


def closed(D, F, B):
  def f():
    CLOSED.append(1)
    try:
      structure(D, F, B)()
    finally:
      CLOSED.clear()
  return f


for _D, _F, _B in ((1, 1, 1), (2, 1, 1), (3, 2, 1), (3, 3, 'B'), (4, 2, 'B'), (8, 2, 1), (9, 2, 'B')):
  ob('P02', 'build with points on the boundary depth %d full depth %d batch %s' % (_D, _F, _B))(closed(_D, _F, _B))
