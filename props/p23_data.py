"""P23: the data pipeline."""
import random
from .common import *
from .p20_points import cloud, models as cmodels

FR = tm.Fraction
PI = FR('3.14159265')


def attr(o, n):
  return dr.interp().getattr(o, n)


def transform(**kw):
  a = dict(depth=4, full_depth=2, distort=True, angle=[0, 180, 30], interval=[1, 1, 5], scale=0.25,
           uniform=False, jitter=0.125, flip=[0.5, 0.0, 1.0], orient_normal='')
  a.update(kw)
  return call(anchor('ocnn.dataset:Transform'), **a)


EDGE = [FR(x) for x in ('-2', '-1.005', '-1', '-0.995', '-0.9905', '-0.98', '0', '0.25', '0.5', '0.98', '0.9905',
                        '0.995', '1', '1.005', '1.2')]


def sample_models():
  """Witness clouds with coordinates around the faces of the box."""
  cmodels()
  for s, m in enumerate(dr.CUR.models):
    def pts(i, k, s=s):
      R = random.Random('%d %d' % (s, int(i)))
      c = [FR(0)] * 3
      c[R.randrange(3)] = R.choice(EDGE)
      return c[int(k)]
    m['pts'] = pts
    m['N'] = (lambda s=s: 6 + s)


# ------------------------------------------------------------ random parameters
def within(t, i, lo, hi, what):
  v = t._at((P(i),))
  a, b = tm.nrange(v)
  eps = FR(1, 10 ** 5)
  if a < lo - eps or b > hi + eps:
    if abs(a) == tm.INF or abs(b) == tm.INF:
      raise Undecided('range of %s' % what)
    fail('%s lies in [%s, %s], configured is [%s, %s]' % (what, float(a), float(b), float(lo), float(hi)),
         t._st.loc)
  if hi > lo and v.const() is not None:
    fail('%s is constant although a range is configured' % what, t._st.loc)
  ok('%s in [%s, %s]' % (what, float(lo), float(hi)))
  return v


def rnd(angle, interval, scale, uniform, jitter, flip):
  def f():
    set_models([{}])
    m = transform(angle=angle, interval=interval, scale=scale, uniform=uniform, jitter=jitter, flip=flip)
    a, s, j, fl = list(call(attr(m, 'rnd_parameters')))
    for t, n in ((a, 'angle'), (s, 'scale'), (j, 'jitter')):
      check_dims(t, [3], 'random ' + n)
    for i in range(3):
      k = angle[i] // interval[i]
      b = k * interval[i] * PI / 180
      v = within(a, i, -b, b, 'rotation about axis %d' % i)
      q = tm.scale(v, FR(180) / (interval[i] * PI))
      r = [c for m_, c in q.terms]
      if not all(abs(c - round(c)) < FR(1, 10 ** 5) for c in r):
        fail('the rotation about axis %d is no multiple of its interval' % i, a._st.loc)
      within(s, i, 1 - FR(scale), 1 + FR(scale), 'scale factor %d' % i)
      within(j, i, -FR(jitter), FR(jitter), 'jitter %d' % i)
    e = [s._at((P(i),)) for i in range(3)]
    same = [e[0].key == x.key for x in e[1:]]
    if uniform and not all(same):
      fail('uniform scaling uses different factors', s._st.loc)
    if not uniform and scale and any(same):
      fail('the scale factors of the axes are tied although uniform is off', s._st.loc)
    if not isinstance(fl, str) or any(c not in 'xyz' for c in fl) or len(set(fl)) != len(fl):
      fail('flip axes %r' % (fl,))
    for i, c in enumerate('xyz'):
      if flip[i] <= 0 and c in fl:
        fail('axis %s is flipped although its probability is zero' % c)
      if flip[i] >= 1 and c not in fl:
        fail('axis %s is not flipped although its probability is one' % c)
    ok('flip axes %r' % fl)
  return f


ob('P23', 'random parameters: mixed')(rnd([0, 180, 30], [1, 1, 5], 0.25, False, 0.125, [0.5, 0.0, 1.0]))
ob('P23', 'random parameters: uniform')(rnd([180, 180, 180], [1, 1, 1], 0.25, True, 0.5, [0.0, 0.0, 0.0]))
ob('P23', 'random parameters: none')(rnd([0, 0, 0], [1, 1, 1], 0.0, False, 0.0, [1.0, 0.5, 0.25]))
ob('P23', 'random parameters: ragged')(rnd([7, 10, 90], [2, 3, 45], 0.5, True, 0.25, [0.0, 1.0, 0.0]))
ob('P23', 'random parameters: not uniform')(rnd([5, 0, 0], [5, 1, 1], 0.75, False, 0.0, [1.0, 1.0, 1.0]))


# ------------------------------------------------------------------- transform
class Trace:
  """Records the augmentation calls on point clouds."""

  def __init__(self):
    self.calls = []
    for n in ('flip', 'rotate', 'translate', 'scale', 'clip', 'orient_normal'):
      dr.contract('ocnn.octree:Points.' + n, self.hook(n))
    dr.contract('ocnn.octree:Octree.build_octree', self.hook('build'))

  def hook(self, n):
    def h(**k):
      self.calls.append((n, k))
      if n == 'clip':
        return feat('mask', [k['self'].d['points']._dims[0]], 'bool')
      if n == 'build':
        return feat('idx', [k['point_cloud'].d['points']._dims[0]], 'int64')
    return h

  def names(self):
    return [n for n, _ in self.calls]


def order(distort, orient):
  def f():
    sample_models()
    p, d, N = cloud(attrs=('normals',), bs=1)
    m = transform(distort=distort, orient_normal=orient)
    tr = Trace()
    s = {'points': p, 'label': 3, 'filename': 'a'}
    r = call(attr(m, 'transform'), s, 0)
    want = (['flip', 'rotate', 'scale', 'translate'] if distort else []) + (['orient_normal'] if orient else [])
    got = tr.names()
    if got.count('clip') != 1:
      fail('the points are clipped %d times' % got.count('clip'))
    if got[-1] != 'clip':
      fail('%s is applied after clipping: points may leave the domain of the octree' % got[-1])
    if sorted(got[:-1]) != sorted(want):
      fail('augmentations %s, expected %s' % (sorted(got[:-1]), sorted(want)))
    if any(k['self'] is not p for _, k in tr.calls):
      fail('another point cloud is transformed')
    k = tr.calls[-1][1]
    lo, hi = k.get('min', -1.0), k.get('max', 1.0)
    if not (float(lo) == -1.0 and float(hi) == 1.0):
      fail('the points are clipped to [%s, %s]' % (lo, hi))
    ok('augmentations %s, then clipped to [-1, 1]' % want)
    if distort:
      cfg = dict(rotate='angle', scale='factor', translate='dis')
      for n, k in tr.calls:
        v = [x for kk, x in k.items() if kk != 'self']
        if n == 'flip':
          if not isinstance(v[0], str) or 'y' in v[0] or 'z' not in v[0]:
            fail('flip axes %r are not the drawn ones' % (v[0],))
        elif n in cfg:
          for i in range(3):
            b = dict(rotate=[FR(0), PI, 30 * PI / 180][i], scale=FR(1, 4), translate=FR(1, 8))[n]
            c = 1 if n == 'scale' else 0
            within(v[0], i, c - b, c + b, '%s parameter %d' % (n, i))
    if orient:
      k = [k for n, k in tr.calls if n == 'orient_normal'][0]
      if k.get('axis') != orient:
        fail('normals are oriented along %r' % (k.get('axis'),))
    if r['points'] is not p or not isinstance(r['inbox_mask'], T):
      fail('points or mask are not reported')
    check_equal(r['inbox_mask'], [N], lambda i: App('mask', i), 'the mask of kept points is reported')
    if r['label'] != 3 or r['filename'] != 'a':
      fail('other entries of the sample are lost')
  return f


for _d in (False, True):
  for _o in ('', 'x', 'xyz'):
    ob('P23', 'transform distort=%d orient=%r' % (_d, _o))(order(_d, _o))


def inside(i, k):
  x = App('pts', i, P(k))
  lo, hi = tn.py2poly(-1 + 0.01), tn.py2poly(1 - 0.01)   # documented margin of clip
  return mul(1 - Ge(lo - x), 1 - Ge(x - hi))


def whole(distort):
  """From numpy arrays to the octree: the octree is built from the clipped points."""
  def f():
    sample_models()
    N = sym('N')
    m = transform(distort=distort)
    tr = []

    def build(**k):
      tr.append(k)
      return feat('idx', [k['point_cloud'].d['points']._dims[0]], 'int64')
    dr.contract('ocnn.octree:Octree.build_octree', build)
    for n in ('flip', 'rotate', 'translate', 'scale') if distort else ():
      dr.contract('ocnn.octree:Points.' + n, lambda **k: None)
    pts, nrm = feat('pts', [N, 3]), feat('nrm', [N, 3])
    pts._isnp = nrm._isnp = True
    r = call(m, {'points': pts, 'normals': nrm, 'label': 2}, 0)
    if not isinstance(r, dict) or set(r) != {'points', 'inbox_mask', 'octree', 'label'}:
      fail('the sample has the entries %s' % sorted(r))
    if len(tr) != 1 or tr[0]['point_cloud'] is not r['points'] or tr[0]['self'] is not r['octree']:
      fail('the octree is not built from the reported points')
    o = r['octree']
    if (o.d['depth'], o.d['full_depth'], o.d['batch_size']) != (4, 2, 1):
      fail('the octree has depth %s, full depth %s, batch size %s' % (
          o.d['depth'], o.d['full_depth'], o.d['batch_size']))
    ok('octree of the configured depths')
    mk = lam(lambda i: mulall3([inside(i, k) for k in range(3)]), N)
    check_equal(r['inbox_mask'], [N], lambda i: mulall3([inside(i, k) for k in range(3)]),
                'the mask marks the points in [-1, 1]^3')
    n = tm.mk_cnt(mk)
    for a, fn in (('points', 'pts'), ('normals', 'nrm')):
      t = r['points'].d[a]
      check_dims(t, [n, 3], 'clipped ' + a)
      check_equal(t, [n, 3], lambda e, c: App(fn, tm.mk_sel(0, mk, e), c), 'the kept %s in order' % a)
  return f


def mulall3(v):
  r = P(1)
  for x in v:
    r = mul(r, x)
  return r


for _d in (False, True):
  ob('P23', 'pipeline distort=%d' % _d)(whole(_d))


# --------------------------------------------------------------------- collate
def collate(K, merge, extra):
  def f():
    pre = 'abcd'[:K]
    os_ = [Oct(dr.interp(), 4, 2, B=1, pre=p, feats=('normals', 'points'), neigh=False) for p in pre]
    Ns = [sym('n' + p) for p in pre]
    set_models(octree_models(4, 2, B=1, pre=tuple(pre), **{'n' + p: small for p in pre}))
    done = []

    def neigh(self, depth):
      done.append((self, depth))
      self.d['neighs'][depth] = feat('ng%d' % depth, [1, 27], 'int64')
    dr.contract('ocnn.octree:Octree.construct_neigh', neigh)
    pts = [call(anchor('ocnn.octree:Points'), feat('pt' + p, [n, 3]), feat('nm' + p, [n, 3]))
           for p, n in zip(pre, Ns)]
    masks = [feat('mk' + p, [n], 'bool') for p, n in zip(pre, Ns)]
    batch = []
    for i in range(K):
      b = {'points': pts[i], 'octree': os_[i].obj, 'label': 5 + 3 * i, 'filename': 'f%d' % i,
           'inbox_mask': masks[i]}
      if extra:
        b['octree_gt'] = os_[i].obj
      batch.append(b)
    m = call(anchor('ocnn.dataset:CollateBatch'), *([] if merge is None else [merge]))
    r = call(m, batch)
    if set(r) != set(batch[0]):
      fail('the batch has the entries %s' % sorted(r))
    for key in ('octree',) + (('octree_gt',) if extra else ()):
      o = r[key]
      if not isinstance(o, ip.IInstance) or any(o is s.obj for s in os_):
        fail('the octrees are not merged into one')
      compare(lambda ix: P(tn.py2poly(o.d['batch_size'])), lambda ix: P(K), [], [], 'batch size of the octree')
      for d in range(5):
        check_dims(o.d['keys'][d], [addn([s.N(d) for s in os_])], 'merged keys')
        off = P(0)
        for i, s in enumerate(os_):
          v = tm.named('row', s.N(d))
          compare(lambda ix: o.d['keys'][d]._at((off + ix[0],)),
                  lambda ix: tm.mk_slc(s.key(d, ix[0]), 0, 48) + i * 2 ** 48, [P(v)], [s.N(d)],
                  'sample %d keeps its place in the batch (level %d)' % (i, d))
          off = off + s.N(d)
      lv = sorted(d for s, d in done if s is o)
      if lv != list(range(1, 5)) and lv != list(range(0, 5)):
        fail('neighbour tables are constructed for the levels %s' % lv)
      ok('neighbour tables of all levels')
    if merge:
      p = r['points']
      if not isinstance(p, ip.IInstance):
        fail('the points are not merged')
      check_dims(p.d['points'], [addn(Ns), 3], 'merged points')
      off = P(0)
      for i, (c, n) in enumerate(zip(pre, Ns)):
        for a, fn in (('points', 'pt'), ('normals', 'nm')):
          v, w = tm.named('row', n), tm.named('col', P(3))
          compare(lambda ix: p.d[a]._at((off + ix[0], ix[1])), lambda ix: App(fn + c, ix[0], ix[1]),
                  [P(v), P(w)], [n, P(3)], 'points of sample %d' % i)
        v = tm.named('row', n)
        compare(lambda ix: p.d['batch_id']._at((off + ix[0], P(0))), lambda ix: P(i), [P(v)], [n],
                'batch index of the points of sample %d' % i)
        off = off + n
    elif not isinstance(r['points'], list) or any(a is not b for a, b in zip(r['points'], pts)):
      fail('the points are not kept per sample')
    lab = r['label']
    if not isinstance(lab, T):
      fail('the labels are no tensor')
    check_dims(lab, [K], 'labels')
    for i in range(K):
      compare(lambda ix: lab._at((P(i),)), lambda ix: P(5 + 3 * i), [], [], 'label of sample %d' % i)
    check_dtype(lab, 'int64', 'labels')
    if list(r['filename']) != ['f%d' % i for i in range(K)]:
      fail('file names %r' % (r['filename'],))
    if not isinstance(r['inbox_mask'], list) or any(a is not b for a, b in zip(r['inbox_mask'], masks)) or \
        len(r['inbox_mask']) != K:
      fail('the masks are not kept per sample')
    ok('other entries per sample in order')
  return f


for _K in (1, 2, 3):
  for _m in (None, True, False):
    ob('P23', 'collate K=%d merge_points=%s' % (_K, _m))(collate(_K, _m, False))
ob('P23', 'collate two octree entries')(collate(2, True, True))


def badbatch():
  m = call(anchor('ocnn.dataset:CollateBatch'))
  rejected(lambda: call(m, {'points': 1}), 'a batch that is no list is rejected')


ob('P23', 'collate type')(badbatch)
