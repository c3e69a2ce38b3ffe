"""Shared vocabulary of the obligations: abstract inputs and specifications."""
from absint import terms as tm
from absint import tensor as tn
from absint import interp as ip
from absint import driver as dr
from absint.tensor import S, T, Device
from absint.terms import (P, App, Ge, Eq, Ite, mk_sum, mk_sel, mk_rank, mk_cnt, lam, mul, addn, fresh,
                          declare, powp)
from absint.driver import (anchor, call, check_equal, check_dims, check_dtype,
                           check_const, compare, set_models, ok, fail, Undecided)
from absint.octbase import Oct, sym, feat, model_fns, small_octree, enc, dec, defaults
from . import ob

LUT = {'333': list(range(27)),
       '222': [13, 14, 16, 17, 22, 23, 25, 26]}
# offsets ordered with x slowest; a sub-kernel keeps the offsets that vary along
# its axes of size three
for _k in ('311', '131', '113', '331', '313', '133'):
  LUT[_k] = [9 * (i + 1) + 3 * (j + 1) + (k + 1)
             for i in ((-1, 0, 1) if _k[0] == '3' else (0,))
             for j in ((-1, 0, 1) if _k[1] == '3' else (0,))
             for k in ((-1, 0, 1) if _k[2] == '3' else (0,))]


def octree_models(D, F, B=2, seeds=range(4), pre=('',), **extra):
  """Finite witness octrees, plus the sizes named in extra (name -> fn(seed))."""
  out = []
  for s in seeds:
    d = {}
    for p in pre:
      d.update(model_fns(D, F, B, s + 17 * len(p), p))
    for k, v in extra.items():
      if callable(v):
        d[k] = (lambda v=v, s=s: v(s))
      else:
        d[k] = (lambda v=v: v)
    out.append(d)
  return out


def small(s):
  return 1 + s % 3


def setp(module, name, t):
  """Gives a parameter of an analysed module the arbitrary value t."""
  p = module.d[name] if isinstance(module, ip.IInstance) else module
  if dr.Mode.kind:
    p._dt, p._dev = t._dt, t._dev
  tn.assign(p, t)
  return p


def no_neighbour(*a):
  return P(0)


# ---------------------------------------------------------------- key searches
def bit(p, i):
  return tm.mk_slc(P(p), i, 1)


def morton(x, y, z, depth):
  """Interleaved bits of a cell (z lowest)."""
  t = []
  x, y, z = [tm.mk_slc(P(v), 0, depth) for v in (x, y, z)]
  for i in range(depth):
    for j, v in ((2, x), (1, y), (0, z)):
      t.append(tm.scale(bit(v, i), 2 ** (3 * i + j)))
  return tm.addn(t)


def find(o, d, q, nempty=False):
  """Row of the node with key q among all / the occupied nodes, -1 if absent.

  The keys of a level are strictly increasing, so the first key that is not
  smaller than q is the only candidate.
  """
  n = o.N(d, nempty)
  v = fresh(n)
  body = o.key(d, o.sel(d, P(v)) if nempty else P(v))
  r = tm.mk_lb(tm.bind([v], body), q)
  at = o.key(d, o.sel(d, r) if nempty else r)
  return Ite(mul(Ge(n - 1 - r), Eq(at - q)), r, P(-1))


def columns(name, rows, cols, dtype='float32', dev=None):
  """Caller-owned matrix whose columns are given by functions of the row."""
  def fn(idx):
    c = idx[1].const()
    if c is not None:
      return P(cols[int(c)](idx[0]))
    return addn([mul(Eq(idx[1] - j), P(g(idx[0]))) for j, g in enumerate(cols)])
  dtype, dev = defaults(dtype, dev)
  return tn.new([P(rows), P(len(cols))], dtype, tn.dev_of(dev), fn, origin=('input', name))


def rejected(f, what):
  """The call must raise; a definite run-time error of the code is a rejection."""
  try:
    f()
  except ip.RepoError as ex:
    ok('%s (%s)' % (what, str(ex)[:80]))
    return True
  fail('%s: accepted' % what)
