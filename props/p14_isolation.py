"""P14: the samples of a batch never influence each other."""
import itertools
import random
from absint import isolation as iso
from absint import evalm
from .common import *
from absint.driver import Violation
from . import p02_build as pb
from . import p04_neigh as nb
from .p08_conv import unlimited, out_rows, LUT

FR = tm.Fraction
D, F = 4, 2


def structure(seeds, D, F):
  """Octree whose sample b is drawn from seeds[b] alone."""
  B = len(seeds)
  lv = {}
  nodes = [(b, x) for b in range(B) for x in range(1)]
  for d in range(D + 1):
    if d < F:
      lv[d] = (nodes, list(range(len(nodes))))
      nodes = [(b, x) for b in range(B) for x in range(8 ** (d + 1))]
      continue
    ne = []
    for b in range(B):
      own = [i for i, n in enumerate(nodes) if n[0] == b]
      R = random.Random('%r %d' % (seeds[b], d))
      k = min(len(own), R.randint(1, 5))
      ne += R.sample(own, k)
    ne.sort()
    ch = [-1] * len(nodes)
    for r, i in enumerate(ne):
      ch[i] = r
    lv[d] = (nodes, ch)
    nodes = [(nodes[i][0], nodes[i][1] * 8 + j) for i in ne for j in range(8)]
  return lv


class World:
  """A batch whose sample at position `at` is the sample under judgement."""

  def __init__(self, s, other, at, B, D, F, queries=6):
    self.seeds = [(s,) if b == at else (s, other, b) for b in range(B)]
    self.at, self.B = at, B
    self.lv = structure(self.seeds, D, F)
    R = random.Random('%d %d' % (s, other))
    mine = [(at, j) for j in range(queries)]
    rest = [((at + 1 + R.randrange(B - 1)) % B, j) for j in range(R.randrange(4))]
    self.qs = mine + rest
    R.shuffle(self.qs)
    self.fns = model_fns(D, F, B, 0, lv=self.lv)
    self.fns['Q'] = lambda: len(self.qs)
    self.D, self.F = D, F

  def rows(self, t):
    """Identity (sample, position in it) of every row of a kind."""
    if t == iso.PT:
      return self.qs
    if t == iso.SMP:
      return [(b, 0) for b in range(self.B)]
    nodes, ch = self.lv[t[1]]
    return [n for n, c in zip(nodes, ch) if t[0] == 'N' or c >= 0]

  def data(self, name, t, gen):
    rows = self.rows(t)

    def f(i, *a):
      i = int(i)
      if not 0 <= i < len(rows):
        raise evalm.Undef('row')
      b, k = rows[i]
      return gen(random.Random('%s %r %r %r' % (name, self.seeds[b], k, [int(x) for x in a])), b)
    self.fns[name] = f


def real(R, b):
  return FR(R.randrange(-8, 9), 8)


def cells(d):
  return lambda R, b: R.randrange(2 ** d)


def unit(R, b):
  return FR(R.randrange(8), 8)


def own(R, b):
  return b


def proved(f):
  """Is the result the specified one, which stays in the sample?"""
  try:
    f()
    return True
  except (Violation, Undecided):
    return False


class Case:
  """An operator applied to a batch; every data source has a row kind."""

  def __init__(self, D=D, F=F, **kw):
    self.D, self.F = D, F
    self.o = Oct(dr.interp(), D, F, **kw)
    self.kinds, self.gens, self.samples, self.const = {}, {}, [], {}
    set_models([])

  def x(self, name, d, nempty, C):
    n = self.o.N(d, nempty)
    self.kinds[name] = iso.SMP if d is None else ('N', d) if d < self.F or not nempty else ('E', d)
    self.gens[name] = real
    return feat(name, [n, C])

  def col(self, name, t, gen, sort, lo, hi, sample=False):
    declare(name, sort, lo, hi)
    self.kinds[name], self.gens[name] = t, gen
    if sample:
      self.samples.append(name)

  def queries(self, d, half=False):
    self.col('qi', iso.PT, cells(d), 'i', 0, 2 ** d - 1)
    self.col('qf', iso.PT, unit, 'f', 0, 1 - FR(1, 2 ** 40))
    self.col('qb', iso.PT, own, 'i', 0, self.o.B - 1, True)
    return columns('q', sym('Q'), [
        lambda i, c=c: App('qi', i, P(c)) + App('qf', i, P(c)) + (FR(1, 2) if half else 0) for c in range(3)] +
        [lambda i: App('qb', i)])

  def judge(self, r, kind, what, known=None):
    if dr.Mode.kind:
      return
    if known and proved(known):
      return
    o = self.o
    it = iso.Iso(o, self.kinds, 'Q', self.samples)
    n = r._dims[0]
    if it.sizes.get(n.key) != kind and kind is not None:
      fail('%s: %s rows, expected one per %s' % (what, n, kind))
    vs = [tm.named('q%d' % i, d) for i, d in enumerate(r._dims)]
    ix = tuple(P(v) if d.const() != 1 else P(0) for v, d in zip(vs, r._dims))
    env = {v: iso.LOC for v in vs}
    env[vs[0]] = kind
    g = P(r._at(ix))
    try:
      reads = iso.check(it, g, env)
    except iso.NotLocal as ex:
      self.refute(g, vs, r._dims, kind, what, r._st.loc)
      raise Undecided('%s: %s' % (what, ex))
    ok('%s: all %d reads stay in the sample' % (what, reads))

  def refute(self, g, vs, dims, kind, what, where):
    for s in range(6):
      W = [World(s, o, at, B, self.D, self.F) for o, at, B in
           ((0, 0, 2), (1, 0, 2), (2, 0, 3), (3, 1, 3), (4, 1, 2))]
      Ms = []
      for w in W:
        for n, t in self.kinds.items():
          w.data(n, t, self.gens[n])
        for n, f in self.const.items():
          w.fns[n] = f
        Ms.append(evalm.Model(w.fns, s))
      if not all(dr.path_ok(M) for M in Ms):
        continue
      rest = [range(min(3, int(evalm.ev(d, {}, Ms[0])))) for d in dims[1:]]
      for k in sorted(set(k for b, k in W[0].rows(kind) if b == 0)):
        for tail in itertools.product(*rest):
          vals = []
          for w, M in zip(W, Ms):
            M.budget = 300_000
            row = w.rows(kind).index((w.at, k))
            env = dict(zip(vs, (row,) + tail))
            try:
              vals.append(evalm.ev(g, env, M))
            except evalm.Undef:
              vals.append(None)
          good = [v for v in vals if v is not None]
          mag = max(M.mag for M in Ms)
          if good and any(not evalm.close(good[0], v, mag) for v in good):
            fail('%s: the entry of row %s, %s of one sample is %s with different other samples' % (
                what, k, tail, ' / '.join(dr.fmt(v) for v in good)), where)


def ops():
  """name -> function yielding (result, kind of its rows) for a case."""
  out = {}

  def op(name):
    def deco(f):
      out[name] = f
      return f
    return deco

  def const(c):
    c.const.update(C=lambda: 2, K=lambda: 2)
    return sym('C'), sym('K')

  def kind(c, d, nempty):
    return ('N', d) if d < c.F or not nempty else ('E', d)

  def conv(cls, kernel, stride, nempty, d, direct):
    def f(c):
      C, K = const(c)
      c.const['MB'] = lambda: 10 ** 9
      e, ch = (d + stride - 1, K) if cls == 'OctreeDeconv' else (d, C)
      unlimited(c.o, out_rows(c.o, e, stride, nempty), len(LUT[kernel]), ch)
      MB = S(unlimited(c.o, c.o.N(d, nempty) * 8, 27, C + K))
      if cls == 'OctreeDWConv':
        m = call(anchor('ocnn.nn:OctreeDWConv'), S(C), [int(k) for k in kernel], stride, nempty, max_buffer=MB)
      else:
        m = call(anchor('ocnn.nn:' + cls), S(C), S(K), [int(k) for k in kernel], stride, nempty,
                 direct_method=direct, max_buffer=MB)
      x = c.x('x', d, nempty, C)
      r = call(m, x, c.o.obj, d)
      to = d if stride == 1 else d + 1 if cls == 'OctreeDeconv' else d - 1
      return r, kind(c, to, nempty)
    return f
  for cls in ('OctreeConv', 'OctreeDeconv', 'OctreeDWConv'):
    for kernel, stride in (('333', 1), ('333', 2), ('222', 2), ('311', 1)):
      for nempty in (False, True):
        for d in (2, 3):
          out['%s %s/%d nempty=%d d=%d' % (cls, kernel, stride, nempty, d)] = conv(cls, kernel, stride, nempty, d, True)
        if kernel != '311':
          out['%s %s/%d nempty=%d d=3 columns' % (cls, kernel, stride, nempty)] = conv(cls, kernel, stride, nempty, 3, False)

  def plain(fn, name, rows, d, to, **kw):
    def f(c):
      C, K = const(c)
      x = c.x('x', d, rows, C)
      r = call(anchor('ocnn.nn' + (':' if ':' not in fn else '.') + fn), x, c.o.obj, d, **kw)
      return r, to(c)
    out['%s nempty=%d d=%d' % (name, rows, d)] = f
  for nempty in (False, True):
    for d in (2, 3, 4):
      plain('octree_max_pool', 'max_pool', nempty, d, lambda c, d=d, n=nempty: kind(c, d - 1, n), nempty=nempty)
      plain('octree_avg_pool', 'avg_pool 222', nempty, d, lambda c, d=d: kind(c, d - 1, True), kernel='222', stride=2, nempty=nempty)
      plain('octree_avg_pool', 'avg_pool 333', nempty, d, lambda c, d=d, n=nempty: kind(c, d, n), kernel='333', stride=1, nempty=nempty)
      plain('octree_global_pool', 'global_pool', nempty, d, lambda c: iso.SMP, nempty=nempty)
  for d in (2, 3):
    plain('octree_pad', 'pad', True, d, lambda c, d=d: ('N', d))
    plain('octree_depad', 'depad', False, d, lambda c, d=d: kind(c, d, True))

    for n in (False, True):
      plain('octree_interp:octree_nearest_upsample', 'upsample', n, d, lambda c, d=d, n=n: kind(c, d + 1, n), nempty=n)

  def norm(cls, nempty, d):
    def f(c):
      m = call(anchor('ocnn.nn:OctreeGroupNorm'), 4, 2, nempty) if cls == 'group' else \
          call(anchor('ocnn.nn:OctreeInstanceNorm'), 4, nempty)
      return call(m, c.x('x', d, nempty, 4), c.o.obj, d), kind(c, d, nempty)
    out['%s norm nempty=%d d=%d' % (cls, nempty, d)] = f
  for cls in ('group', 'instance'):
    for nempty in (False, True):
      for d in (2, 3):
        norm(cls, nempty, d)

  def interp(m, nempty, d):
    def f(c):
      C, K = const(c)
      q = c.queries(d, m == 'linear')
      x = c.x('x', d, nempty, C)
      return call(anchor('ocnn.nn:octree_%s_pts' % m), x, c.o.obj, d, q, nempty), iso.PT
    out['%s interpolation nempty=%d d=%d' % (m, nempty, d)] = f
  for m in ('nearest', 'linear'):
    for nempty in (False, True):
      interp(m, nempty, 2)
      interp(m, nempty, 3)

  def find_(nempty, d):
    def f(c):
      C, K = const(c)
      r = c.o.obj.m('search_xyzb', c.queries(d), d, nempty)
      x = c.x('x', d, nempty, C)
      n = r._dims[0]
      return tn.new([n, C], 'float32', r._dev, lambda i: Ite(
          Ge(r._at((i[0],))), App('x', r._at((i[0],)), i[1]), P(0))), iso.PT
    out['search_xyzb nempty=%d d=%d' % (nempty, d)] = f
  for nempty in (False, True):
    find_(nempty, 2)
    find_(nempty, 3)

  def neigh(kernel, stride, nempty, d):
    def f(c):
      C, K = const(c)
      r = c.o.obj.m('get_neigh', d, kernel, stride, nempty)
      x = c.x('x', d, nempty, C)
      return tn.new([r._dims[0], r._dims[1], C], 'float32', r._dev, lambda i: Ite(
          Ge(r._at(i[:2])), App('x', r._at(i[:2]), i[2]), P(0))), \
          kind(c, d, nempty) if stride == 1 else kind(c, d - 1, True)
    out['get_neigh %s/%d nempty=%d d=%d' % (kernel, stride, nempty, d)] = f
  for nempty in (False, True):
    for d in (2, 3):
      neigh('333', 1, nempty, d)
      neigh('333', 2, nempty, d)

  def table(d):
    def f(c):
      C, K = const(c)
      c.o.obj.m('construct_neigh', d)
      r = c.o.obj.d['neighs'][d]
      x = c.x('x', d, False, C)
      return tn.new([r._dims[0], r._dims[1], C], 'float32', r._dev, lambda i: Ite(
          Ge(r._at(i[:2])), App('x', r._at(i[:2]), i[2]), P(0))), ('N', d)
    out['neighbour table d=%d' % d] = f
  for d in (1, 2, 3, 4):
    table(d)

  def drop(nempty, d):
    def f(c):
      C, K = const(c)
      m = call(anchor('ocnn.nn:OctreeDropPath'), 0.25, nempty)
      return call(m, c.x('x', d, nempty, C), c.o.obj, d), kind(c, d, nempty)
    out['drop path nempty=%d d=%d' % (nempty, d)] = f
  for nempty in (False, True):
    drop(nempty, 2)
    drop(nempty, 3)
  return out


def case(name, f):
  def g():
    c = Case()
    r, kind = f(c)
    c.judge(r, kind, name, nb.full(int(name[-1]), F, D) if 'table' in name and int(name[-1]) <= F else None)
  return g


for _n, _f in ops().items():
  ob('P14', _n)(case(_n, _f))


class Cloud:
  """A batch of point clouds; the cloud at position `at` is the judged one."""

  def __init__(self, s, other, at, B):
    seeds = [(s,) if b == at else (s, other, b) for b in range(B)]
    self.at = at
    self.pts = []
    R = random.Random('%d %d' % (s, other))
    own = [[(b, j) for j in range(random.Random('n%r' % (seeds[b],)).randint(1, 5))] for b in range(B)]
    while any(own):
      b = R.choice([b for b in range(B) if own[b]]) if s % 2 else min(b for b in range(B) if own[b])
      self.pts.append(own[b].pop(0))

    def col(name, gen):
      return lambda i, c: gen(random.Random('%s %r %d %d' % (name, seeds[self.row(i)[0]], self.row(i)[1], int(c))))
    self.fns = {
        'n': lambda: len(self.pts), 'B': lambda: B, 'CF': lambda: 2, 'bid': lambda i, *a: self.row(i)[0],
        'pts': col('p', lambda R: FR(R.randrange(-64, 64), 64)), 'nrm': col('n', lambda R: FR(R.randrange(-9, 10), 8)),
        'fts': col('f', lambda R: FR(R.randrange(-9, 10), 8))}

  def row(self, i):
    if not 0 <= int(i) < len(self.pts):
      raise evalm.Undef('row')
    return self.pts[int(i)]


def view(o, idx, D, w, M):
  """What the octree says about the judged sample."""
  def val(t, *ix):
    M.budget = 300_000
    try:
      return evalm.ev(P(t._at(tuple(P(i) for i in ix))), {}, M)
    except evalm.Undef:
      return None

  def rows(t):
    return int(evalm.ev(t._dims[0], {}, M))
  out = {}
  for d in range(D + 1):
    keys = [val(o.d['keys'][d], i) for i in range(rows(o.d['keys'][d]))]
    if None in keys:
      raise evalm.Undef('keys')
    mine = [i for i, k in enumerate(keys) if int(k) >> 48 == w.at]
    out['keys of level %d' % d] = [int(keys[i]) & (2 ** 48 - 1) for i in mine]
    ch = [val(o.d['children'][d], i) for i in mine]
    out['occupied nodes of level %d' % d] = [c if c is None else c >= 0 for c in ch]
    if d == D:
      for a in ('points', 'normals', 'features'):
        t = o.d[a][D]
        out['averaged ' + a] = [[val(t, int(c), k) for k in range(int(evalm.ev(t._dims[1], {}, M)))]
                                for c in ch if c is not None and c >= 0]
      where = {int(c): j for j, c in enumerate(ch) if c is not None}
      pos = sorted((w.row(i)[1], where.get(val(idx, i), 'another sample'))
                   for i in range(len(w.pts)) if w.row(i)[0] == w.at)
      out['nodes of the points'] = [p for _, p in pos]
  return out


def same(a, b, mag):
  if a is None or b is None:
    return True
  if isinstance(a, list):
    return isinstance(b, list) and len(a) == len(b) and all(same(x, y, mag) for x, y in zip(a, b))
  if isinstance(a, str) or isinstance(b, str):
    return a == b
  return evalm.close(a, b, mag)


def build(D, F, rank1=False):
  def f():
    if dr.Mode.kind:
      return
    try:
      pb.averages(D, F, 'B', ('normals', 'features'), rank1)()
      return pb.structure(D, F, 'B', rank1)()
    except (Violation, Undecided) as e:
      why = str(e)
    pb.models(D, 2)
    o, n, idx = pb.build(D, F, sym('B', 2, 32767), ('normals', 'features'), rank1)
    for s in range(8):
      W = [Cloud(s, x, at, B) for x, at, B in ((0, 0, 2), (1, 0, 2), (2, 1, 2), (0, 0, 3), (1, 2, 3), (3, 1, 4))]
      views, mag = [], 0
      for w in W:
        M = evalm.Model(w.fns, s)
        if not dr.path_ok(M):
          continue
        try:
          views.append(view(o, idx, D, w, M))
          mag = max(mag, M.mag)
        except evalm.Undef:
          pass
      for v in views[1:]:
        for k in v:
          if not same(views[0][k], v[k], mag):
            fail('build_octree: %s of one sample are %.60s / %.60s with different other samples' % (
                k, views[0][k], v[k]), o.d['keys'][D]._st.loc)
    raise Undecided('build_octree: not the structure of separate samples (%s)' % why)
  return f


for _D, _F in ((3, 2), (4, 2), (3, 3), (8, 3)):
  ob('P14', 'build_octree depth %d full depth %d' % (_D, _F))(build(_D, _F))
ob('P14', 'build_octree flat batch ids')(build(4, 2, True))
