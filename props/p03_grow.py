"""P03: splitting and growing octrees."""
import random
from .common import *


def scal(o, name, d, want, what):
  """nnum / nnum_nempty entry of a level."""
  t = o.d[name]
  if not isinstance(t, T):
    fail('%s: %s is %s' % (what, name, type(t).__name__))
  compare(lambda ix: t._at((P(d),)), lambda ix: P(want), [], [], '%s: %s[%d]' % (what, name, d),
          t._st.loc)


def same(o, obj, d, what):
  """Level d of obj is the untouched symbolic level."""
  check_equal(obj.d['keys'][d], [o.N(d)], lambda i: o.key(d, i), what + ': keys of level %d' % d)
  check_equal(obj.d['children'][d], [o.N(d)], lambda i: o.ch(d, i), what + ': children of level %d' % d)


def models(D, F, d, **kw):
  set_models(octree_models(D, F, seeds=range(8)))
  for s, m in enumerate(dr.CUR.models):
    m['split'] = (lambda s: lambda i: 0 if s >= 6 else int(
        random.Random('%d %d' % (i, s)).random() < 0.4))(s)


def splitmask(o, d, dt, none):
  """Arbitrary 0/1 labels: nothing split, or at least one node split."""
  if none:
    return tn.new([o.N(d)], dt, o.dev, lambda i: P(0), origin=('input', 'split'))
  t = feat('split', [o.N(d)], dt, lo=0, hi=1)
  tm.Ctx.facts.append(ranksum(o, d) - 1)
  tm.Ctx.bump()
  return t


def ranksum(o, d, i=None):
  n = o.N(d)
  v = fresh(n)
  x = App('split', P(v))
  return mk_sum([v], x if i is None else mul(Ge(i - P(v) - 1), x))


def split(d, F, D, dt, none):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False, up_to=d)
    models(D, F, d)
    s = splitmask(o, d, dt, none)
    o.obj.m('octree_split', s, d)
    ch = o.obj.d['children'][d]
    if not isinstance(ch, T):
      fail('octree_split stores %s as children' % type(ch).__name__)
    if ch._dt != 'int32':
      fail('children have dtype %s, expected int32' % ch._dt, ch._st.loc)
    if none:
      spec = lambda i: Ite(Eq(i), P(0), P(-1))
      tot = P(1)
    else:
      spec = lambda i: Ite(Ge(App('split', i) - 1), ranksum(o, d, i), P(-1))
      tot = ranksum(o, d)
    check_equal(ch, [o.N(d)], spec, 'split nodes are numbered in order, the others are -1' if not none
                else 'the first node is split when no node is')
    scal(o.obj, 'nnum_nempty', d, tot, 'number of split nodes')
    scal(o.obj, 'nnum', d, o.N(d), 'node count unchanged')
    check_equal(o.obj.d['keys'][d], [o.N(d)], lambda i: o.key(d, i), 'keys unchanged')
    for e in range(d):
      same(o, o.obj, e, 'split of level %d' % d)
    check_equal(s, [o.N(d)], lambda i: P(0) if none else App('split', i),
                'the label tensor is unchanged')
  return f


def child_key(o, d, k, j):
  """Key of child j of the node with key k."""
  return tm.mk_slc(k, 48, None) * 2 ** 48 + tm.mk_slc(k, 0, 48) * 8 + j


def grow(d, F, D, upd):
  """octree_grow(d) on an octree whose levels up to d-1 exist."""
  def f():
    o = Oct(dr.interp(), D, F, up_to=d - 1)
    set_models(octree_models(D, F))
    calls = []

    def neigh(self, depth):
      if self.d['keys'][d] is None or self.d['children'][d] is None:
        fail('neighbours of level %d are constructed before its keys' % d)
      calls.append((self, depth))
    dr.contract('ocnn.octree:Octree.construct_neigh', neigh)
    if upd is None:
      o.obj.m('octree_grow', d)
    else:
      o.obj.m('octree_grow', d, update_neigh=upd)
    if upd is False and calls:
      fail('octree_grow constructs neighbours although update_neigh is off')
    if upd is not False and calls != [(o.obj, d)]:
      if not calls:
        fail('octree_grow with update_neigh constructs no neighbours for level %d' % d)
      raise Undecided('neighbour construction %r' % [c[1] for c in calls])
    n = o.N(d - 1, True)
    keys = o.obj.d['keys'][d]
    check_dims(keys, [n * 8], 'keys of the new level')
    check_dtype(keys, 'int64', 'keys of the new level')
    r = tn.reshape(keys, [tn.dim2py(n), 8])
    check_equal(r, [n, 8], lambda e, j: child_key(o, d, o.key(d - 1, o.sel(d - 1, e)), j),
                'eight children per split node in key order, batch index kept', eager=True)
    check_equal(o.obj.d['children'][d], [n * 8], lambda i: i,
                'new nodes are all non-empty until they are split', dtype='int32')
    scal(o.obj, 'nnum', d, n * 8, 'grow')
    scal(o.obj, 'nnum_nempty', d, n * 8, 'grow')
    for e in range(d):
      same(o, o.obj, e, 'growing level %d' % d)
      scal(o.obj, 'nnum', e, o.N(e), 'grow')
      scal(o.obj, 'nnum_nempty', e, o.N(e, True), 'grow')
  return f


def split_grow(d, F, D, none):
  """Splitting level d-1 with arbitrary labels, then growing level d."""
  def f():
    o = Oct(dr.interp(), D, F, neigh=False, up_to=d - 1)
    models(D, F, d - 1)
    s = splitmask(o, d - 1, 'int64', none)
    o.obj.m('octree_split', s, d - 1)
    o.obj.m('octree_grow', d, update_neigh=False)
    tot = P(1) if none else ranksum(o, d - 1)
    keys = o.obj.d['keys'][d]
    r = tn.reshape(keys, [tn.dim2py(tot), 8])
    m = lam(lambda i: Ge(App('split', i) - 1), o.N(d - 1))
    sel = (lambda e: P(0)) if none else (lambda e: mk_sel(0, m, e))
    check_equal(r, [tot, 8], lambda e, j: child_key(o, d, o.key(d - 1, sel(e)), j),
                'eight children per split node in key order', eager=True)
    check_equal(o.obj.d['children'][d], [tot * 8], lambda i: i, 'new nodes are non-empty')
    scal(o.obj, 'nnum', d, tot * 8, 'split and grow')
    scal(o.obj, 'nnum_nempty', d, tot * 8, 'split and grow')
  return f


def full_level(o, obj, d, what):
  n = 8 ** d
  B = o.B
  keys = obj.d['keys'][d]
  check_dims(keys, [B * n], '%s: keys' % what)
  check_dtype(keys, 'int64', what)
  r = tn.reshape(keys, [tn.dim2py(B), n])
  check_equal(r, [B, n], lambda b, m: b * 2 ** 48 + m, '%s: every cell of every sample in key order' % what,
              enum=0)
  check_equal(obj.d['children'][d], [B * n], lambda i: i, '%s: all nodes non-empty' % what, dtype='int32')
  scal(obj, 'nnum', d, B * n, what)
  scal(obj, 'nnum_nempty', d, B * n, what)


def grow_full(d, F, D, upd, B=None):
  def f():
    o = Oct(dr.interp(), D, F, up_to=-1, B=B)
    set_models(octree_models(D, F, B or 2))
    calls = []
    dr.contract('ocnn.octree:Octree.construct_neigh', lambda self, depth: calls.append((self, depth)))
    o.obj.m('octree_grow_full', d, **({} if upd is None else {'update_neigh': upd}))
    if (upd is not False) != bool(calls):
      fail('octree_grow_full(update_neigh=%s) calls construct_neigh %d times' % (upd, len(calls)))
    full_level(o, o.obj, d, 'full level %d' % d)
    for e in range(D + 1):
      if e != d and o.obj.d['keys'][e] is not None:
        fail('growing level %d also changes level %d' % (d, e))
  return f


def init(D, F, how):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False)       # supplies the symbolic batch size
    set_models(octree_models(D, F))
    calls = []
    dr.contract('ocnn.octree:Octree.construct_neigh', lambda self, depth: calls.append(depth))
    g = anchor('ocnn.octree:init_octree')
    B = tn.mk_scalar(o.B)
    t = call(g, D, F, B, 'cuda:0') if how else call(g, depth=D, full_depth=F, batch_size=B)
    for a, v in (('depth', D), ('full_depth', F)):
      if t.d[a] != v:
        fail('init_octree sets %s to %r instead of %r' % (a, t.d[a], v))
    for d in range(F + 1):
      full_level(o, t, d, 'initial level %d' % d)
      want = tn.dev_of('cuda:0' if how else 'cpu')
      for a in ('keys', 'children'):
        if t.d[a][d]._dev != want:
          fail('%s of the initial octree on %s, expected %s' % (a, t.d[a][d]._dev, want), t.d[a][d]._st.loc)
    for d in range(F + 1, D + 1):
      if t.d['keys'][d] is not None:
        fail('init_octree creates level %d above the full depth' % d)
    if sorted(set(calls)) not in (list(range(F + 1)), list(range(1, F + 1))):
      fail('neighbours constructed for the levels %s of an initial octree' % sorted(set(calls)))
  return f


for _F, _D in ((1, 3), (2, 4), (3, 5)):
  for _d in range(_F, _D + 1):
    for _n in (False, True):
      ob('P03', 'split level %d of full depth %d none=%d' % (_d, _F, _n))(split(_d, _F, _D, 'int64', _n))
  for _d in range(_F + 1, _D + 1):
    ob('P03', 'grow level %d of full depth %d' % (_d, _F))(grow(_d, _F, _D, None))
    ob('P03', 'grow level %d of full depth %d without neighbours' % (_d, _F))(grow(_d, _F, _D, False))
    for _n in (False, True):
      ob('P03', 'split and grow level %d of full depth %d none=%d' % (_d, _F, _n))(split_grow(_d, _F, _D, _n))
  for _d in range(_F + 1):
    for _u in (None, False):
      ob('P03', 'grow full level %d of %d upd=%s' % (_d, _F, _u))(grow_full(_d, _F, _D, _u))
  for _h in (0, 1):
    ob('P03', 'init_octree depth %d full depth %d %d' % (_D, _F, _h))(init(_D, _F, _h))
ob('P03', 'split with int32 labels')(split(3, 2, 4, 'int32', False))
ob('P03', 'init_octree depth 2 full depth 2')(init(2, 2, 1))
ob('P03', 'grow full level, one sample')(grow_full(2, 2, 3, False, 1))
for _d in (8, 10, 12, 13, 14, 15, 16):
  ob('P03', 'grow deep level %d' % _d)(grow(_d, 2, 16, False))
  ob('P03', 'split and grow deep level %d' % _d)(split_grow(_d, 2, 16, False))
