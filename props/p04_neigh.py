"""P04: neighbour tables and neighbourhood queries."""
from .common import *
from .p11_pool import nbh

GRID = [(i, j, k) for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1)]


def cell(m, d):
  """Coordinates of the cell with Morton number m at level d."""
  return [addn([tm.scale(bit(m, 3 * j + 2 - a), 2 ** j) for j in range(d)]) for a in range(3)]


def full_nb(d, b, m, k):
  """Row of the cell at offset k (constant) of cell m of sample b, -1 outside."""
  n = 2 ** d
  q = [a + o for a, o in zip(cell(m, d), GRID[k])]
  ins = P(1)
  for v in q:
    ins = mul(ins, mul(Ge(v), Ge(n - 1 - v)))
  k = tm.from_bits(tm.bits(morton(*q, d)))
  return Ite(ins, b * 8 ** d + k, P(-1))


def child_nb(o, d, p, j, k, nb=None):
  """Neighbour k of child j of node p (level d-1): geometric step."""
  q = [c + o_ for c, o_ in zip(((j >> 2) & 1, (j >> 1) & 1, j & 1), GRID[k])]
  par = [v // 2 for v in q]              # parent cell offset
  sub = [v % 2 for v in q]
  kp = 9 * (par[0] + 1) + 3 * (par[1] + 1) + par[2] + 1
  n = nb(p, kp) if nb else o.nb(d - 1, p, P(kp))
  c = o.ch(d - 1, n)
  return Ite(mul(Ge(n), Ge(c)), c * 8 + (4 * sub[0] + 2 * sub[1] + sub[2]), P(-1))


def construct(o, d):
  o.obj.m('construct_neigh', d)
  t = o.obj.d['neighs'][d]
  if not isinstance(t, T):
    fail('construct_neigh(%d) stores %s' % (d, type(t).__name__))
  if t._dev != o.dev:
    fail('neighbour table on %s for an octree on %s' % (t._dev, o.dev), t._st.loc)
  if tn.cat_of(t._dt) != tn.cat_of('int64') or t._dt == 'bool':
    fail('neighbour table has dtype %s' % t._dt, t._st.loc)
  check_dims(t, [o.N(d), 27], 'neighbour table of level %d' % d)
  return t


def full(d, F, D, B=None):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False, B=B)
    set_models(octree_models(D, F, B or 2))
    t = construct(o, d)
    r = tn.reshape(t, [tn.dim2py(o.B), 8 ** d, 27])
    if 8 ** d <= 64:
      check_equal(r, [o.B, 8 ** d, 27], lambda b, m, k: full_nb(d, b, m, int(k.const())),
                  'full level: cell at the offset, -1 outside the volume', eager=True)
      return
    for k in range(27):
      rk = tn.select(r, 2, k)
      check_equal(rk, [o.B, 8 ** d], lambda b, m: full_nb(d, b, m, k),
                  'full level: cell at offset %d, -1 outside the volume' % k, enum=0)
  return f


def deep(d, F, D):
  def f():
    o = Oct(dr.interp(), D, F)
    set_models(octree_models(D, F))
    t = construct(o, d)
    r = tn.reshape(t, [tn.dim2py(o.N(d - 1, True)), 8, 27])
    check_equal(r, [o.N(d - 1, True), 8, 27],
                lambda e, j, k: child_nb(o, d, o.sel(d - 1, e), int(j.const()), int(k.const())),
                'neighbour of a child is the child of the parent\'s neighbour', eager=True)
  return f


def both(D, F):
  """construct_all_neigh fills every level, each one after the level above."""
  def f():
    o = Oct(dr.interp(), D, F)
    set_models(octree_models(D, F))
    tabs = list(o.obj.d['neighs'])
    o.obj.d['neighs'] = [None] * (D + 1)

    def one(self, depth):
      d = depth
      if self is not o.obj or not isinstance(d, int):
        raise Undecided('construct_neigh of another octree')
      if not 1 <= d <= D:
        fail('construct_neigh is called for level %d of an octree of depth %d' % (d, D))
      if d > F and self.d['neighs'][d - 1] is None:
        fail('level %d is constructed before level %d it depends on' % (d, d - 1))
      self.d['neighs'][d] = tabs[d]
    dr.contract('ocnn.octree:Octree.construct_neigh', one)
    o.obj.m('construct_all_neigh')
    for d in range(1, D + 1):
      t = o.obj.d['neighs'][d]
      if not isinstance(t, T):
        fail('construct_all_neigh leaves level %d without a table' % d)
      if t is not tabs[d]:
        raise Undecided('level %d is not built by construct_neigh' % d)
      ok('level %d constructed, its parent level first' % d)
  return f


KERNELS = ['333', '222', '311', '131', '113', '331', '313', '133']


def entry(o, d, i, k, stride, nempty):
  """nbh, with absent neighbours (-1 by the invariant) left as they are."""
  if not nempty:
    return nbh(o, d, i, k, stride, nempty)
  nb = o.nb(d, i * 8 if stride == 2 else o.sel(d, i), P(k))
  return Ite(Ge(nb), o.ch(d, nb), nb)


def query(d, kernel, stride, nempty, F, D, how):
  """get_neigh: offsets of the kernel, first siblings, occupied numbering."""
  def f():
    o = Oct(dr.interp(), D, F)
    set_models(octree_models(D, F))
    lut = LUT[kernel]
    if how == 'default':
      r = o.obj.m('get_neigh', d)
    elif how == 'keyword':
      r = o.obj.m('get_neigh', depth=d, kernel=kernel, stride=stride, nempty=nempty)
    else:
      r = o.obj.m('get_neigh', d, kernel, stride, nempty)
    h = o.N(d, nempty) if stride == 1 else o.N(d - 1, True) if d > F else o.B * 8 ** (d - 1)
    check_equal(r, [h, len(lut)], lambda i, k: entry(o, d, i, lut[int(k.const())], stride, nempty),
                'kernel %s stride %d nempty %d' % (kernel, stride, nempty), eager=True)
    if r._dt not in ('int64', 'int32'):
      fail('get_neigh returns %s' % r._dt, r._st.loc)
  return f


def again(d, nempty):
  """A query leaves the table as it is: the second query sees the same table."""
  def f():
    o = Oct(dr.interp(), 4, 2)
    set_models(octree_models(4, 2))
    for k, s in (('333', 2), ('222', 1), ('311', 2), ('333', 1)):
      o.obj.m('get_neigh', d, k, s, nempty)
    check_equal(o.obj.d['neighs'][d], [o.N(d), 27], lambda i, k: o.nb(d, i, k),
                'queries leave the stored table unchanged')
  return f


for _d in (1, 2, 3, 4):
  for _s in (1, 2):
    for _n in (False, True):
      for _k in KERNELS:
        ob('P04', 'get_neigh d=%d kernel=%s stride=%d nempty=%d' % (_d, _k, _s, _n))(
            query(_d, _k, _s, _n, 2, 4, 'keyword' if _k in ('311', '222') else 'pos'))
ob('P04', 'get_neigh default arguments')(query(3, '333', 1, False, 2, 4, 'default'))
for _d in (2, 3):
  for _n in (False, True):
    ob('P04', 'get_neigh leaves the table d=%d nempty=%d' % (_d, _n))(again(_d, _n))


for _F, _D in ((1, 3), (2, 4), (3, 4), (3, 3)):
  for _d in range(1, _F + 1):
    ob('P04', 'full level %d of full depth %d' % (_d, _F))(full(_d, _F, _D))
  for _d in range(_F + 1, _D + 1):
    ob('P04', 'level %d above full depth %d' % (_d, _F))(deep(_d, _F, _D))
ob('P04', 'full level, one sample')(full(2, 2, 3, 1))
ob('P04', 'full level 4')(full(4, 4, 5))
ob('P04', 'full level 5', 'thorough')(full(5, 5, 6))
ob('P04', 'full level 6', 'thorough')(full(6, 6, 6))
ob('P04', 'level 5 above full depth 2')(deep(5, 2, 5))
ob('P04', 'level 7 above full depth 3')(deep(7, 3, 7))
ob('P04', 'all levels 4/2')(both(4, 2))
ob('P04', 'all levels 3/3')(both(3, 3))
