"""Symbolic octrees: the inductive hypothesis every operator is analysed under.

An abstract octree of depth D / full depth F / batch B stands for *all* octrees
with these parameters.  Node counts are symbols, keys, children and neighbour
tables are uninterpreted functions constrained by the documented octree
invariants (children of non-empty nodes are their ranks, 8 children per
non-empty node, neighbour indices lie in [-1, N)).
"""
import random
from . import terms as tm
from . import tensor as tn
from .tensor import T, new, Device, S, mk_scalar
from .terms import P, App, Ge, Eq, declare, lam, register_mask


class Degenerate:
  """Sizes that are fixed to an extreme value instead of being symbolic."""
  fix = {}          # name of a size -> constant
  occ = None        # occupied nodes from level full depth + off on
  off = 0


def sym(name, lo=1, hi=None):
  """Symbolic positive integer (size)."""
  if name in Degenerate.fix:
    return P(Degenerate.fix[name])
  if name not in tm.Ctx.fns:
    declare(name, 'i', lo, hi)
  return App(name)


def defaults(dtype, dev):
  """Data type and device of an input under the current effect analysis."""
  from .driver import Mode
  if dtype == 'float32' and Mode.fdt:
    dtype = Mode.fdt
  if dev is None:
    dev = Mode.dev or 'cpu'
  return dtype, dev


def feat(name, dims, dtype='float32', dev=None, origin=None, lo=None, hi=None,
         isint=None, isparam=False):
  """Arbitrary input tensor (a caller-owned uninterpreted function)."""
  dtype, dev = defaults(dtype, dev)
  dims = [P(d) for d in dims]
  if isint is None:
    isint = not dtype.startswith('float') and dtype != 'bfloat16'
  if dtype == 'bool':
    lo, hi = 0, 1
  declare(name, 'i' if isint else 'f', lo, hi)
  t = new(dims, dtype, tn.dev_of(dev), lambda idx: App(name, *idx),
          origin=('input', name) if origin is None else origin)
  if isparam:
    t._isparam = True
    t.requires_grad = True
  return t


class Oct:
  """Abstract octree installed on an `Octree` created from source."""

  def __init__(self, it, D, F=2, B=None, pre='', dev=None, feats=(), bs=None,
               neigh=True, cls=None, up_to=None, cf=None):
    dev = defaults('float32', dev)[1]
    self.D, self.F, self.pre, self.dev = D, F, pre, tn.dev_of(dev)
    self.it = it
    self.B = P(B if B is not None else sym('B', 2, 32767))
    bpy = mk_scalar(self.B)
    if cls is None:
      cls = it.getattr(it.import_module('ocnn.octree'), 'Octree')
    self.obj = o = it.call(cls, (D, F), {'batch_size': bpy, 'device': dev})
    q = pre
    self._N, self._E = {}, {}
    keys, ch, nb = [], [], []
    for d in range(D + 1):
      self._N[d] = self.B * 8 ** d if d <= F else self._E[d - 1] * 8
      self._E[d] = self._N[d] if d < F else sym('%sE%d' % (q, d), 1)
      if Degenerate.occ is not None and d >= F + Degenerate.off:
        self._E[d] = P(Degenerate.occ)
    self.masks = {}
    for d in range(D + 1):
      self._level(d, keys, ch, nb)
    own = ('octree', q or 'octree')
    top = D if up_to is None else up_to
    o.d['keys'] = [k if i <= top else None for i, k in enumerate(keys)]
    o.d['children'] = [k if i <= top else None for i, k in enumerate(ch)]
    if neigh:
      o.d['neighs'] = [n if i <= top else None for i, n in enumerate(nb)]
    i32 = 'int32'
    N, E = self._N, self._E
    o.d['nnum'] = self._vec([N[d] if d <= top else 0 for d in range(D + 1)], 'nnum')
    o.d['nnum_nempty'] = self._vec([E[d] if d <= top else 0 for d in range(D + 1)], 'nnum_nempty')
    bn, be = q + 'bn', q + 'be'
    declare(bn, 'i', 0)
    declare(be, 'i', 0)
    o.d['batch_nnum'] = new([D + 1, self.B], i32, Device('cpu'),
                            lambda i: App(bn, *i), origin=(own, 'batch_nnum'))
    o.d['batch_nnum_nempty'] = new([D + 1, self.B], i32, Device('cpu'),
                                   lambda i: App(be, *i), origin=(own, 'batch_nnum_nempty'))
    for f in ('features', 'normals', 'points'):
      v = [None] * (D + 1)
      if f in feats:
        c = 3 if f != 'features' else cf or sym(q + 'CF', 1)
        nm = q + f
        v[D] = feat(nm, [E[D], c], 'float32', dev, origin=(own, f))
        if f == 'points':
          tm.Ctx.fns[nm].lo = 0
      o.d[f] = v
    for f in ('keys', 'children', 'neighs', 'features', 'normals', 'points'):
      from . import interp as ip
      ip.OWNED[id(o.d[f])] = (o.d[f], (own, f))
    o.d['__origin__'] = own

  def _vec(self, ps, name):
    tab = [P(p) for p in ps]

    def fn(idx):
      c = idx[0].const()
      if c is not None:
        return tab[int(c)]
      return tm.addn([tm.mul(Eq(idx[0] - d), p) for d, p in enumerate(tab)])
    return new([len(ps)], 'int32', Device('cpu'), fn,
               origin=(('octree', self.pre or 'octree'), name))

  def _level(self, d, keys, ch, nb):
    q = self.pre
    N, E = self._N[d], self._E[d]
    own = ('octree', q or 'octree')
    k, c, n = '%skey%d' % (q, d), '%sch%d' % (q, d), '%snb%d' % (q, d)
    declare(k, 'i', 0, None)
    tm.Ctx.fns[k].gap = (3 * d, 48)
    declare(n, 'i', -1, N - 1)
    keys.append(new([N], 'int64', self.dev, lambda i: App(k, *i), origin=(own, 'keys', d)))
    nb.append(new([N, P(27)], 'int64', self.dev, lambda i: App(n, *i), origin=(own, 'neighs', d))
              if d > 0 else None)
    if d < self.F:
      ch.append(new([N], 'int32', self.dev, lambda i: i[0], origin=(own, 'children', d)))
      self.masks[d] = None
      return
    declare(c, 'i', -1, E - 1)
    ml = lam(lambda i: Ge(App(c, i)), N)
    self.masks[d] = ml

    def rw(i, ml=ml, c=c):
      s = i.single()
      if s is not None and s.kind == 'sel' and s.data[1].key == ml.key:
        return s.data[2]
      return None
    tm.Ctx.fns[c].rewrite = rw
    register_mask(ml, c, E)
    ch.append(new([N], 'int32', self.dev, lambda i: App(c, *i), origin=(own, 'children', d)))

  # specification-level accessors
  def N(self, d, nempty=False):
    return self._E[d] if nempty else self._N[d]

  def key(self, d, i):
    return App('%skey%d' % (self.pre, d), i)

  def ch(self, d, i):
    return P(i) if d < self.F else App('%sch%d' % (self.pre, d), i)

  def nb(self, d, i, k):
    return App('%snb%d' % (self.pre, d), i, k)

  def sel(self, d, e):
    """Index of the e-th non-empty node."""
    if d < self.F:
      return P(e)
    return tm.mk_sel(0, self.masks[d], P(e))


# --------------------------------------------------------------- finite models
def small_octree(D, F, B, seed, p=0.35, cap=6):
  """A concrete octree satisfying the invariants (witness structure)."""
  R = random.Random(seed)
  lv = {}
  full = [(b, x) for b in range(B) for x in range(8 ** F)]
  for d in range(F):
    nodes = [(b, x) for b in range(B) for x in range(8 ** d)]
    lv[d] = (nodes, list(range(len(nodes))))
  nodes = full
  for d in range(F, D + 1):
    ne = [i for i in range(len(nodes)) if R.random() < p]
    if seed >= 1000 and d == F:
      # the samples occupy consecutive ranges of cells
      ne = [i for i in ne if nodes[i][1] * B // 8 ** F == nodes[i][0]]
    if cap and len(ne) > cap:
      ne = sorted(R.sample(ne, R.randint(max(1, cap // 2), cap)))
    # at least one non-empty node per sample on the full layer
    for b in range(B):
      own = [i for i, nd in enumerate(nodes) if nd[0] == b]
      if own and not any(i in ne for i in own):
        ne.append(own[len(own) * nodes[own[0]][0] // B] if seed >= 1000 else R.choice(own))
    ne = sorted(set(ne))
    if Degenerate.occ is not None and d >= F + Degenerate.off:
      ne = ne[:Degenerate.occ]
    ch = [-1] * len(nodes)
    for r, i in enumerate(ne):
      ch[i] = r
    lv[d] = (nodes, ch)
    nxt = []
    for i in ne:
      b, x = nodes[i]
      nxt.extend((b, x * 8 + j) for j in range(8))
    nodes = nxt
  return lv


def dec(x, d):
  r = [0, 0, 0]
  for i in range(d):
    r[0] |= ((x >> (3 * i + 2)) & 1) << i
    r[1] |= ((x >> (3 * i + 1)) & 1) << i
    r[2] |= ((x >> (3 * i)) & 1) << i
  return tuple(r)


def enc(x, y, z, d):
  k = 0
  for i in range(d):
    k |= ((x >> i) & 1) << (3 * i + 2)
    k |= ((y >> i) & 1) << (3 * i + 1)
    k |= ((z >> i) & 1) << (3 * i)
  return k


def model_fns(D, F, B, seed, pre='', oct_B=None, p=0.35, lv=None):
  """Interpretation of the octree symbols over a small concrete octree."""
  lv = lv or small_octree(D, F, B, seed, p=p)
  fns = {'B': lambda: B}
  from .evalm import Undef

  def arr(v, off=0):
    def f(i):
      i = int(i)
      if not 0 <= i < len(v):
        raise Undef('index %d of %d' % (i, len(v)))
      return v[i]
    return f
  for d in range(D + 1):
    nodes, ch = lv[d]
    keys = [(b << 48) | x for b, x in nodes]
    pos = {n: i for i, n in enumerate(nodes)}
    nb = []
    for b, x in nodes:
      X, Y, Z = dec(x, d)
      row = []
      for i in (-1, 0, 1):
        for j in (-1, 0, 1):
          for k in (-1, 0, 1):
            q = (X + i, Y + j, Z + k)
            if min(q) < 0 or max(q) >= 1 << d:
              row.append(-1)
            else:
              row.append(pos.get((b, enc(*q, d)), -1))
      nb.append(row)
    ne = sum(1 for c in ch if c >= 0)
    fns['%sE%d' % (pre, d)] = lambda ne=ne: ne
    fns['%skey%d' % (pre, d)] = arr(keys)
    fns['%sch%d' % (pre, d)] = arr(ch)

    def nf(i, k, nb=nb):
      i, k = int(i), int(k)
      if not (0 <= i < len(nb) and 0 <= k < 27):
        raise Undef('neigh index')
      return nb[i][k]
    fns['%snb%d' % (pre, d)] = nf

  def per(which):
    def f(d, b):
      d, b = int(d), int(b)
      nodes, ch = lv[d]
      return sum(1 for n, c in zip(nodes, ch) if n[0] == b and (which == 'n' or c >= 0))
    return f
  fns[pre + 'bn'] = per('n')
  fns[pre + 'be'] = per('e')
  return fns
