"""Abstract tensors: symbolic shape x pointwise value x dtype x device x alias.

A tensor is a *pull array*: its value at a symbolic index vector is a normal
form of `terms`.  Storage is shared between views, so in-place writes through
any alias are visible through all others, and a write to the storage of a
caller-owned tensor is recorded as an effect.
"""
from fractions import Fraction
import math
from . import terms as tm
from .terms import (P, Poly, Ite, Ge, Gt, Eq, Not, And, Or, Div, Mod, Fun,
                    fresh, lam, mk_sum, mk_sel, mk_cnt, Tab, Table, ONE, ZERO)


class Unsupported(Exception):
  """The construct is outside the analysed fragment (no verdict)."""


class RepoError(Exception):
  """The analysed program raises on this abstract path."""

  def __init__(self, kind, msg, exc=None):
    super().__init__('%s: %s' % (kind, msg))
    self.kind, self.msg, self.exc = kind, msg, exc
    self.loc = AN.where() if AN is not None else None


class PathDead(Exception):
  pass


class Analysis:
  """State of one abstract execution path."""

  def __init__(self):
    self.events = []
    self.decisions = []
    self.script = []
    self.pos = 0
    self.frames = []
    self.models = []         # callables: size poly -> int (witness models)
    self.counter = 0
    self.denoms = []
    self.autocast = False
    self.grad_enabled = True
    self.assumed = []
    self.bounds = []         # index tensors and the range they must stay in
    self.narrows = []        # conversions to a floating type that round
    self.ranges = []         # integers held in types that cannot hold all of them

  def where(self):
    if not self.frames:
      return '<top>'
    f = self.frames[-1]
    return '%s:%s in %s' % (f[0], f[1], f[2])

  def event(self, kind, **kw):
    kw['kind'] = kind
    kw['where'] = self.where()
    self.events.append(kw)

  def decide(self, p):
    p = P(p)
    c = p.const()
    if c is not None:
      return c != 0
    p = apply_truth(p)
    c = p.const()
    if c is not None:
      return c != 0
    for n, (q, _) in enumerate(self.decisions):   # decided before on this path
      if q == p:
        return self.script[n]
      if (q + p).const() == 1:
        return not self.script[n]
    if self.pos < len(self.script):
      v = self.script[self.pos]
    else:
      v = True
      self.script.append(v)
    self.decisions.append((p, self.where()))
    self.pos += 1
    self.assume(p, v)
    return v

  def assume(self, p, v):
    """Adds the fact p == v (p a 0/1 value)."""
    assume(p, v)


def apply_truth(p):
  mp = {}
  for a in p.atoms():
    if a.kind in ('ge', 'gt', 'eq') and a.key in tm.Ctx.truth:
      mp[a] = P(tm.Ctx.truth[a.key])
  return tm.subst(p, mp) if mp else p


def assume(p, v):
  p = P(p)
  facs = tm._and_factors(p if v else Not(p))
  if facs:
    for a, t in facs:
      tm.Ctx.truth[a.key] = t
      q = a.data[0]
      if a.kind == 'ge':
        tm.Ctx.facts.append(q if t else (-q - 1 if q.isint else -q))
      elif a.kind == 'eq' and t:
        tm.Ctx.facts.append(q)
        tm.Ctx.facts.append(-q)
  tm.Ctx.bump()


AN = None


def set_analysis(a):
  global AN
  AN = a


# ---------------------------------------------------------------- scalars
def num(c):
  """Fraction -> python number."""
  return int(c) if c.denominator == 1 else float(c)


def mk_scalar(p, isbool=False, isfloat=False):
  c = p.const()
  if c is not None:
    if isbool:
      return bool(c)
    if isfloat:
      return float(c)
    return num(c)
  return S(p, isbool)


class S:
  """Symbolic Python number."""
  __slots__ = ('p', 'isbool')

  def __init__(self, p, isbool=False):
    self.p, self.isbool = p, isbool

  def _lift(self, o):
    if isinstance(o, S):
      return o.p
    if isinstance(o, (int, float, bool, Fraction)):
      return P(o)
    return None

  def __bool__(self):
    return AN.decide(self.p if self.isbool else Not(Eq(self.p)))

  def __hash__(self):
    return hash(self.p.key)

  def __index__(self):
    raise Unsupported('symbolic integer used as a concrete index')

  def __repr__(self):
    return 'S(%r)' % self.p

  def __abs__(self):
    return mk_scalar(Fun('abs', self.p))

  def __neg__(self):
    return mk_scalar(-self.p)

  def __pos__(self):
    return self

  def __round__(self, n=None):
    return mk_scalar(tm.Floor(self.p + Fraction(1, 2)))

  def __floor__(self):
    return mk_scalar(tm.Floor(self.p))

  def __ceil__(self):
    return mk_scalar(-tm.Floor(-self.p))

  def __float__(self):
    raise Unsupported('float(symbolic)')

  def item(self):
    return self

  @property
  def __class__(self):
    return S


def _sop(name, f, swap=False, isbool=False):
  def op(self, o):
    q = self._lift(o)
    if q is None:
      return NotImplemented
    return mk_scalar(f(q, self.p) if swap else f(self.p, q), isbool)
  setattr(S, name, op)


_BIN = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b,
    'truediv': lambda a, b: a * tm.inv(b),
    'floordiv': lambda a, b: Div(a, b), 'mod': lambda a, b: Mod(a, b),
    'lshift': lambda a, b: tm.Shl(a, b), 'rshift': lambda a, b: tm.Shr(a, b),
    'and': lambda a, b: tm.BitAnd(a, b), 'or': lambda a, b: tm.BitOr(a, b),
    'xor': lambda a, b: tm.BitXor(a, b),
    'pow': lambda a, b: Fun('pow', a, b),
}
for _n, _f in _BIN.items():
  _sop('__%s__' % _n, _f)
  _sop('__r%s__' % _n, _f, swap=True)
_CMP = {
    'lt': lambda a, b: Gt(b - a), 'le': lambda a, b: Ge(b - a),
    'gt': lambda a, b: Gt(a - b), 'ge': lambda a, b: Ge(a - b),
    'eq': lambda a, b: Eq(a - b), 'ne': lambda a, b: Not(Eq(a - b)),
}
for _n, _f in _CMP.items():
  _sop('__%s__' % _n, _f, isbool=True)


class Size(tuple):
  def numel(self):
    r = 1
    for x in self:
      r = r * x
    return r


class DType:
  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return 'torch.' + self.name

  @property
  def is_floating_point(self):
    return self.name in FLOATS


FLOATS = ('float16', 'bfloat16', 'float32', 'float64')
INTS = ('uint8', 'int8', 'int16', 'int32', 'int64')
DT = {n: DType(n) for n in FLOATS + INTS + ('bool',)}
_RANK = {'bool': 0, 'uint8': 1, 'int8': 1, 'int16': 2, 'int32': 3, 'int64': 4,
         'float16': 10, 'bfloat16': 10, 'float32': 11, 'float64': 12}


def cat_of(d):
  return 0 if d == 'bool' else (1 if d in INTS else 2)


def promote(a, b):
  if a == b:
    return a
  if {a, b} == {'float16', 'bfloat16'}:
    return 'float32'
  return a if _RANK[a] >= _RANK[b] else b


class Device:
  def __init__(self, name):
    name = str(name)
    if name == 'gpu':
      raise RepoError('RuntimeError', 'invalid device string gpu')
    self.type = name.split(':')[0]
    self.index = int(name.split(':')[1]) if ':' in name else None

  def __eq__(self, o):
    return isinstance(o, Device) and (self.type, self.index) == (o.type, o.index)

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash((self.type, self.index))

  def __repr__(self):
    return self.type if self.index is None else '%s:%d' % (self.type, self.index)

  def __str__(self):
    return repr(self)


def dev_of(d):
  if d is None:
    return Device('cpu')
  if isinstance(d, Device):
    return d
  if isinstance(d, str):
    return Device(d)
  if isinstance(d, int):
    return Device('cuda:%d' % d)
  raise RepoError('TypeError', 'bad device %r' % (d,))


# ---------------------------------------------------------------- storage
class Storage:
  __slots__ = ('fn', 'dims', 'origin', 'writes', 'const', 'loc', 'shape0')

  def __init__(self, dims, fn, origin=None, const=None):
    self.dims = dims
    self.fn = fn
    self.origin = origin
    self.writes = 0
    self.const = const      # dict idx tuple -> Fraction when constant folded
    self.loc = AN.where() if AN is not None else None


class Memo:
  __slots__ = ('f', 'd')

  def __init__(self, f):
    self.f, self.d = f, {}

  def __call__(self, idx):
    k = tuple(i.key for i in idx) + (tm.Ctx.version,)
    r = self.d.get(k)
    if r is None:
      r = P(self.f(idx))
      self.d[k] = r
    return r


class View:
  __slots__ = ('fwd', 'inv')

  def __init__(self, fwd, inv):
    self.fwd, self.inv = fwd, inv


def py2poly(x):
  """python/abstract scalar -> Poly"""
  if isinstance(x, Poly):
    return x
  if isinstance(x, S):
    return x.p
  if isinstance(x, T):
    if len(x._dims) == 0:
      return x._at(())
    if all(d == ONE for d in x._dims):
      return x._at((ZERO,) * len(x._dims))
    raise RepoError('ValueError', 'only one element tensors can be converted')
  if isinstance(x, bool):
    return P(x)
  if isinstance(x, (int, float, Fraction)):
    return P(x)
  raise RepoError('TypeError', 'not a scalar: %r' % (type(x).__name__,))


def dim2py(p):
  return mk_scalar(p)


class T:
  """Abstract tensor."""
  _n = 0

  def __init__(self, dims, dtype, dev, fn=None, storage=None, view=None,
               origin=None, fac=None):
    self._dims = tuple(P(d) for d in dims)
    self._dt = dtype
    self._dev = dev
    self._st = storage if storage is not None else \
        Storage(self._dims, Memo(fn), origin)
    self._view = view
    self._fac = fac or {}      # dim -> factor sizes (for splitting sums)
    self.requires_grad = False
    self._isnp = False
    self._isparam = False
    self.grad = None
    T._n += 1

  # -- reading
  def _snap(self):
    f = self._st.fn
    if self._view is None:
      return f
    v = self._view.fwd
    return lambda idx: f(v(idx))

  def _at(self, idx):
    idx = tuple(P(i) for i in idx)
    f = self._st.fn
    return f(idx if self._view is None else tuple(self._view.fwd(idx)))

  def _const_items(self, limit=1024):
    """dict of constant contents or None"""
    n = 1
    ds = []
    for d in self._dims:
      c = d.const()
      if c is None:
        return None
      n *= int(c)
      ds.append(int(c))
    if n > limit:
      return None
    if self._st.const is False:
      return None
    out = []
    for f in range(n):
      r, idx = f, []
      for d in reversed(ds):
        idx.append(P(r % d))
        r //= d
      v = self._at(tuple(reversed(idx))).const()
      if v is None:
        return None
      out.append(v)
    return ds, out

  # -- writing
  def _write(self, guard, val):
    """In place: elements with guard(idx) become val(idx)."""
    st = self._st
    old = st.fn
    dt = self._dt
    if st.origin is not None:
      AN.event('mutate', origin=st.origin)
    st.writes += 1
    st.const = None
    view = self._view
    ver = None

    def conv(v):
      return cast_val(v, dt)

    def new(sidx):
      if view is None:
        g, idx = ONE, sidx
      else:
        g, idx = view.inv(sidx)
        g = P(g)
        if g.const() == 0:
          return old(sidx)
      g = tm.mul(g, P(guard(idx)))
      c = g.const()
      if c == 0:
        return old(sidx)
      v = conv(P(val(idx)))
      if c == 1:
        return v
      return Ite(g, v, old(sidx))
    st.fn = Memo(new)
    return self

  # -- python protocol
  def __len__(self):
    if not self._dims:
      raise RepoError('TypeError', 'len() of a 0-d tensor')
    v = dim2py(self._dims[0])
    if isinstance(v, S):
      raise Unsupported('len(symbolic)')
    return v

  def __iter__(self):
    n = dim2py(self._dims[0])
    if isinstance(n, S):
      raise Unsupported('iteration over a symbolic dimension')
    return iter([self[i] for i in range(n)])

  def __bool__(self):
    p = py2poly(self)
    if self._dt != 'bool':
      p = Not(Eq(p))
    return AN.decide(p)

  def __index__(self):
    c = py2poly(self).const()
    if c is None:
      raise Unsupported('symbolic tensor used as a concrete index')
    return int(c)

  def __hash__(self):
    return id(self)

  def __repr__(self):
    return 'T(%s,%s,%s)' % ('x'.join(map(repr, self._dims)), self._dt, self._dev)

  def __getitem__(self, item):
    return getitem(self, item)

  def __setitem__(self, item, val):
    setitem(self, item, val)

  # -- attributes
  @property
  def shape(self):
    return Size(dim2py(d) for d in self._dims)

  @property
  def ndim(self):
    return len(self._dims)

  @property
  def dtype(self):
    return DT[self._dt]

  @property
  def device(self):
    return self._dev

  @property
  def is_cuda(self):
    return self._dev.type == 'cuda'

  @property
  def T(self):
    if len(self._dims) == 2:
      return self.t()
    return self.permute(*reversed(range(len(self._dims))))

  @property
  def data(self):
    r = T(self._dims, self._dt, self._dev, storage=self._st, view=self._view,
          fac=self._fac)
    return r

  @data.setter
  def data(self, v):
    self._dims, self._dt, self._dev = v._dims, v._dt, v._dev
    self._st, self._view, self._fac = v._st, v._view, v._fac


# ----------------------------------------------------------------- helpers
def new(dims, dtype, dev, fn, fac=None, origin=None, isnp=False):
  t = T(dims, dtype, dev, fn=fn, fac=fac, origin=origin)
  t._isnp = isnp
  return t


def fold(t, limit=1024):
  """Constant folding of small tensors into tables."""
  ci = t._const_items(limit)
  if ci is None:
    return t
  ds, vals = ci
  tab = Table.make(ds, vals)
  if not ds:
    t._st.fn = Memo(lambda idx: P(vals[0]))
  else:
    t._st.fn = Memo(lambda idx: Tab(tab, *idx))
  t._st.const = (ds, vals)
  return t


def const_tensor(shape, vals, dtype, dev):
  n = len(vals)
  vals = [v if isinstance(v, Fraction) else Fraction(v) if isinstance(v, (int, bool))
          else v for v in vals]
  if all(isinstance(v, Fraction) for v in vals):
    if shape:
      tab = Table.make(shape, vals)
      t = T([P(s) for s in shape], dtype, dev, fn=lambda idx: Tab(tab, *idx))
    else:
      t = T([], dtype, dev, fn=lambda idx: P(vals[0]))
    t._st.const = (list(shape), vals)
    return t
  ps = [P(v) for v in vals]

  def fn(idx):
    # nested case split over constant positions
    f = ZERO
    for s, i in zip(shape, idx):
      f = f * s + i
    c = f.const()
    if c is not None:
      return ps[int(c)]
    r = ZERO
    for k, p in enumerate(ps):
      if p.terms:
        r = r + tm.mul(Eq(f - k), p)
    return r
  return T([P(s) for s in shape], dtype, dev, fn=fn)


def dims_equal(a, b, what='dimension'):
  a, b = P(a), P(b)
  if a == b:
    return True
  ca, cb = a.const(), b.const()
  if ca is not None and cb is not None:
    return False
  if tm.ge0(a - b) and tm.ge0(b - a):
    return True
  if tm.ge0(a - b - 1) or tm.ge0(b - a - 1):
    return False
  n = 0
  for m in AN.models:
    try:
      x, y = m(a), m(b)
    except Exception:
      continue
    if x is None or y is None:
      continue
    n += 1
    if x != y:
      return False
  if n >= 3:
    AN.assumed.append((a, b, AN.where()))
    return True
  raise Unsupported('cannot compare sizes %r and %r' % (a, b))


def shape_err(op, *ts):
  raise RepoError('ShapeError', '%s: incompatible shapes %s' % (
      op, ' vs '.join(str(tuple(t)) for t in ts)))


def broadcast_dims(dimss, op='broadcast'):
  n = max(len(d) for d in dimss)
  out = []
  for i in range(n):
    cur = None
    for d in dimss:
      j = i - (n - len(d))
      if j < 0:
        continue
      x = d[j]
      if x == ONE:
        continue
      if cur is None:
        cur = x
      elif not dims_equal(cur, x):
        shape_err(op, *dimss)
    out.append(cur if cur is not None else ONE)
  return tuple(out)


def bidx(t, idx):
  """index of tensor t inside a broadcast result index"""
  k = len(idx) - len(t._dims)
  return tuple(ZERO if d == ONE else i for d, i in zip(t._dims, idx[k:]))


def check_dev(op, ts, allow_scalar=True):
  dev = None
  for t in ts:
    if not isinstance(t, T):
      continue
    if allow_scalar and len(t._dims) == 0:
      continue
    if dev is None:
      dev = t._dev
    elif dev != t._dev:
      raise RepoError('DeviceError', '%s mixes tensors on %s and %s' % (
          op, dev, t._dev))
  if dev is None:
    for t in ts:
      if isinstance(t, T):
        if dev is None or t._dev.type != 'cpu':
          dev = t._dev
  return dev


def result_dtype(args):
  """torch type promotion over tensors and python scalars"""
  best = [None, None, None]     # dimensioned, 0-dim, scalars
  for a in args:
    if isinstance(a, T):
      k = 0 if a._dims else 1
      d = a._dt
    elif isinstance(a, bool) or (isinstance(a, S) and a.isbool):
      k, d = 2, 'bool'
    elif isinstance(a, int) or (isinstance(a, S) and a.p.isint):
      k, d = 2, 'int64'
    elif isinstance(a, (float, S, Fraction)):
      k, d = 2, 'float32'
    else:
      continue
    best[k] = d if best[k] is None else promote(best[k], d)
  cur = best[0]
  for k in (1, 2):
    d = best[k]
    if d is None:
      continue
    if cur is None:
      cur = d
    elif cat_of(d) > cat_of(cur):
      cur = d
  if any(isinstance(a, T) and a._isnp for a in args):
    r = None
    for a in args:
      if isinstance(a, T):
        r = a._dt if r is None else promote(r, a._dt)
    for a in args:
      if isinstance(a, float) and cat_of(r) < 2:
        r = 'float64'
    cur = r
  return cur


def cast_val(v, dt):
  if dt == 'bool':
    if is01(v):
      return v
    return Not(Eq(v))
  if dt in INTS:
    return tm.Trunc(v)
  return v


def is01(v):
  c = v.const()
  if c is not None:
    return c in (0, 1)
  lo, hi = tm.nrange(v)
  if v.isint and lo >= 0 and hi <= 1:
    return True
  # multilinear in brackets
  return all(all(a.kind in ('ge', 'gt', 'eq') for a, e in m)
             for m, c in v.terms) and v.isint


def as_fn(x):
  """(dims, fn) of an operand"""
  if isinstance(x, T):
    return x._snap()
  p = py2poly(x)
  return lambda idx: p


LIMITS = {'uint8': (0, 2 ** 8 - 1), 'int8': (-2 ** 7, 2 ** 7 - 1),
          'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
          'int64': (-2 ** 63, 2 ** 63 - 1)}


def held(t):
  """The values of the new tensor must fit into its integer type."""
  if AN is not None and len(AN.ranges) < 60:
    AN.ranges.append((t._dt, t._dims, t._snap(), t._st.loc))
  return t


def ew(op, f, args, dtype=None, isbool=False):
  """Elementwise operation with broadcasting."""
  ts = [a for a in args if isinstance(a, T)]
  dims = broadcast_dims([t._dims for t in ts], op)
  dev = check_dev(op, ts)
  if dtype is None:
    dtype = 'bool' if isbool else result_dtype(args)
  fs = []
  for a in args:
    if isinstance(a, T):
      g = a._snap()
      fs.append((a, g))
    else:
      fs.append((None, py2poly(a)))

  def fn(idx):
    vs = [g(bidx(a, idx)) if a is not None else g for a, g in fs]
    return f(*vs)
  fac = {}
  for t in ts:
    off = len(dims) - len(t._dims)
    for d, fc in t._fac.items():
      if t._dims[d] != ONE:
        fac.setdefault(d + off, fc)
  r = new(dims, dtype, dev, fn, fac=fac)
  if dtype in LIMITS and dtype not in ('int32', 'int64'):
    held(r)
  r._isnp = any(t._isnp for t in ts)
  if all(t._st.const for t in ts):
    fold(r)
  return r


# ------------------------------------------------------- dimension vars
def dim_vars(size, fac=None):
  """Fresh variables covering [0, size): (vars, index poly)."""
  size = P(size)
  if fac and len(fac) > 1:
    vs = [fresh(s) for s in fac]
    f = ZERO
    for v, s in zip(vs, fac):
      f = f * s + P(v)
    return vs, f
  v = fresh(size)
  return [v], P(v)


def sum_over(size, fn, fac=None):
  c = P(size).const()
  if c is not None and c <= 0:
    return ZERO
  vs, i = dim_vars(size, fac)
  return mk_sum(vs, P(fn(i)))


def reduce_dims(t, dim, keepdim):
  n = len(t._dims)
  if dim is None:
    ds = list(range(n))
  else:
    if not isinstance(dim, (tuple, list)):
      dim = [dim]
    ds = []
    for d in dim:
      d = int(d)
      if not -max(n, 1) <= d < max(n, 1):
        raise RepoError('IndexError', 'Dimension out of range')
      ds.append(d % n if n else 0)
  keep = [d for d in range(n) if d not in ds]
  if keepdim:
    dims = [ONE if d in ds else t._dims[d] for d in range(n)]
  else:
    dims = [t._dims[d] for d in keep]
  return ds, keep, dims


def full_index(n, ds, keep, keepdim, idx, sub):
  out = [None] * n
  if keepdim:
    for d in keep:
      out[d] = idx[d]
  else:
    for j, d in enumerate(keep):
      out[d] = idx[j]
  for d in ds:
    out[d] = sub[d]
  return tuple(out)


def small(t, ds):
  n = 1
  for d in ds:
    c = t._dims[d].const()
    if c is None:
      return None
    n *= int(c)
  return n


def do_sum(t, dim=None, keepdim=False, dtype=None, scale=None):
  ds, keep, dims = reduce_dims(t, dim, keepdim)
  n = len(t._dims)
  if n == 0:
    return t
  f = t._snap()
  isc = bool(t._st.const)
  note_reduce(t, ds, 'sum')
  cnt = small(t, ds)

  def fn(idx):
    if isc and cnt is not None and cnt <= 64:
      tot = []
      for q in range(cnt):
        sub, r = {}, q
        for d in reversed(ds):
          s = int(t._dims[d].const())
          sub[d] = P(r % s)
          r //= s
        tot.append(f(full_index(n, ds, keep, keepdim, idx, sub)))
      return tm.addn(tot)
    vs, sub = [], {}
    for d in ds:
      v, i = dim_vars(t._dims[d], t._fac.get(d))
      vs += v
      sub[d] = i
    for d in ds:
      c = t._dims[d].const()
      if c == 0:
        return ZERO
    body = f(full_index(n, ds, keep, keepdim, idx, sub))
    return mk_sum(vs, body)
  dt = dtype or ('int64' if cat_of(t._dt) < 2 else t._dt)
  r = new(dims, dt, t._dev, fn)
  r._isnp = t._isnp
  if isc:
    fold(r)
  return r


def note_reduce(t, ds, op):
  """Records reductions that run across a symbolic (row) dimension."""
  for d in ds:
    if t._dims[d].const() is None:
      AN.event('row_reduce', op=op)
      break


def do_red(op, t, dim=None, keepdim=False, dtype=None):
  ds, keep, dims = reduce_dims(t, dim, keepdim)
  n = len(t._dims)
  f = t._snap()
  if op not in ('any', 'all', 'prod') and not t._isnp:
    for d in ds if dim is not None else range(n):
      if t._dims[d].const() == 0:
        raise RepoError('IndexError', '%s(): Expected reduction dim %d to have non-zero size' % (op, d))
  note_reduce(t, ds, op)
  cnt = small(t, ds)
  if op in ('any', 'all') and t._dt != 'bool':
    g0 = f
    f = lambda idx: Not(Eq(g0(idx)))

  def fn(idx):
    if op in ('any', 'all', 'prod') and cnt is not None and cnt <= 4:
      acc = None
      for q in range(cnt):
        sub, r = {}, q
        for d in reversed(ds):
          s = int(t._dims[d].const())
          sub[d] = P(r % s)
          r //= s
        v = f(full_index(n, ds, keep, keepdim, idx, sub))
        acc = v if acc is None else (Or(acc, v) if op == 'any' else
                                     tm.mul(acc, v))
      return acc if acc is not None else P(op != 'any')
    if op == 'any' or op == 'all':
      # any(x) = [sum x >= 1]
      vs, sub = [], {}
      for d in ds:
        v, i = dim_vars(t._dims[d], t._fac.get(d))
        vs += v
        sub[d] = i
      b = f(full_index(n, ds, keep, keepdim, idx, sub))
      if op == 'any':
        return Ge(mk_sum(vs, b) - 1)
      return Not(Ge(mk_sum(vs, Not(b)) - 1))
    # nested one dimensional reductions
    vs = {}
    for d in ds:
      vs[d] = fresh(t._dims[d])
    b = f(full_index(n, ds, keep, keepdim, idx,
                     {d: P(v) for d, v in vs.items()}))
    for d in reversed(ds):
      b = tm.Red(op, tm.bind([vs[d]], b))
    return b
  dt = dtype or ('bool' if op in ('any', 'all') else
                 'int64' if op.startswith('arg') or
                 (op == 'prod' and cat_of(t._dt) < 2) else t._dt)
  r = new(dims, dt, t._dev, fn)
  r._isnp = t._isnp
  if t._st.const:
    fold(r)
  return r


def product(ds):
  r = ONE
  for d in ds:
    r = r * d
  return r


# ------------------------------------------------------------------ views
def mkview(t, dims, fwd, inv, fac=None):
  """View of t: fwd maps view idx -> t idx, inv maps t idx -> (guard, idx)."""
  v0 = t._view
  if v0 is None:
    view = View(fwd, inv)
  else:
    def f2(idx):
      return tuple(v0.fwd(tuple(fwd(idx))))

    def i2(sidx):
      g, mid = v0.inv(sidx)
      g = P(g)
      if g.const() == 0:
        return ZERO, None
      g2, idx = inv(mid)
      return tm.mul(g, P(g2)), idx
    view = View(f2, i2)
  r = T(dims, t._dt, t._dev, storage=t._st, view=view, fac=fac)
  r._isnp = t._isnp
  r.requires_grad = t.requires_grad
  return r


def norm_dim(d, n, wrap=0):
  d = int(d)
  if not -(n + wrap) <= d < n + wrap:
    raise RepoError('IndexError', 'Dimension out of range (%d for %d-d)' % (d, n))
  return d % (n + wrap)


def unsqueeze(t, d):
  n = len(t._dims)
  d = norm_dim(d, n, 1)
  dims = t._dims[:d] + (ONE,) + t._dims[d:]
  fac = {(k if k < d else k + 1): v for k, v in t._fac.items()}
  return mkview(t, dims, lambda i: i[:d] + i[d + 1:],
                lambda s: (ONE, tuple(s[:d]) + (ZERO,) + tuple(s[d:])), fac)


def squeeze(t, d=None):
  n = len(t._dims)
  if d is None:
    ds = [k for k in range(n) if t._dims[k] == ONE]
  else:
    d = norm_dim(d, n)
    ds = [d] if t._dims[d] == ONE else []
  keep = [k for k in range(n) if k not in ds]
  dims = [t._dims[k] for k in keep]

  def fwd(i):
    o = [ZERO] * n
    for j, k in enumerate(keep):
      o[k] = i[j]
    return tuple(o)
  fac = {keep.index(k): v for k, v in t._fac.items() if k in keep}
  return mkview(t, dims, fwd, lambda s: (ONE, tuple(s[k] for k in keep)), fac)


def select(t, d, i):
  n = len(t._dims)
  d = norm_dim(d, n)
  i = py2poly(i)
  size = t._dims[d]
  c, sc = i.const(), size.const()
  if c is not None:
    if sc is not None and not -sc <= c < sc:
      raise RepoError('IndexError', 'index %s is out of bounds for dimension '
                      '%d with size %s' % (c, d, sc))
    if c < 0:
      i = size + i
  else:
    i = wrap_index(i, size)
  dims = t._dims[:d] + t._dims[d + 1:]
  fac = {(k if k < d else k - 1): v for k, v in t._fac.items() if k != d}
  return mkview(t, dims, lambda x: tuple(x[:d]) + (i,) + tuple(x[d:]),
                lambda s: (Eq(s[d] - i), tuple(s[:d]) + tuple(s[d + 1:])), fac)


def clampi(p, lo, hi):
  """clamp of integer polys lo<=p<=hi (symbolic)"""
  if tm.ge0(p - lo):
    if tm.ge0(hi - p):
      return p
    return Ite(Ge(hi - p), p, hi)
  if tm.ge0(hi - p):
    return Ite(Ge(p - lo), p, lo)
  return Ite(Ge(p - lo), Ite(Ge(hi - p), p, hi), lo)


def slice_dim(t, d, start=None, stop=None, step=None):
  d = norm_dim(d, len(t._dims))
  size = t._dims[d]
  step = 1 if step is None else step
  if not isinstance(step, int):
    raise Unsupported('symbolic slice step')
  if step <= 0:
    raise RepoError('ValueError', 'step must be greater than zero')

  def norm(x, default):
    if x is None:
      return default
    p = py2poly(x)
    c = p.const()
    if c is not None and c < 0:
      p = size + p
    elif c is None and not tm.ge0(p):
      p = Ite(Ge(p), p, p + size)
    return clampi(p, ZERO, size)
  a = norm(start, ZERO)
  b = norm(stop, size)
  ln = b - a
  if step > 1:
    ln = Div(ln + (step - 1), P(step))
  if not tm.ge0(ln):
    ln = Ite(Ge(ln), ln, ZERO)
  ln = apply_truth(ln)
  dims = t._dims[:d] + (ln,) + t._dims[d + 1:]
  if a == ZERO and step == 1 and ln == size:
    return mkview(t, t._dims, lambda i: i, lambda s: (ONE, s), dict(t._fac))

  def fwd(i):
    return tuple(i[:d]) + (a + i[d] * step,) + tuple(i[d + 1:])

  def inv(s):
    x = s[d] - a
    if step == 1:
      g = tm.mul(Ge(x), Ge(ln - 1 - x))
      q = x
    else:
      q = Div(x, P(step))
      g = tm.mul(Eq(x - q * step), tm.mul(Ge(x), Ge(ln - 1 - q)))
    return g, tuple(s[:d]) + (q,) + tuple(s[d + 1:])
  fac = {k: v for k, v in t._fac.items() if k != d}
  return mkview(t, dims, fwd, inv, fac)


def permute(t, ps):
  n = len(t._dims)
  ps = [norm_dim(p, n) for p in ps]
  if sorted(ps) != list(range(n)):
    raise RepoError('RuntimeError', 'permute: invalid dims')
  invp = [ps.index(k) for k in range(n)]
  fac = {ps.index(k): v for k, v in t._fac.items()}
  return mkview(t, [t._dims[p] for p in ps],
                lambda i: tuple(i[invp[k]] for k in range(n)),
                lambda s: (ONE, tuple(s[ps[k]] for k in range(n))), fac)


def expand(t, sizes):
  n, m = len(t._dims), len(sizes)
  if m < n:
    raise RepoError('RuntimeError', 'expand: too few dims')
  dims = []
  for j, s in enumerate(sizes):
    k = j - (m - n)
    p = py2poly(s)
    if k < 0:
      if p.const() == -1:
        raise RepoError('RuntimeError', 'expand(-1) on a new dimension')
      dims.append(p)
    else:
      if p.const() == -1:
        dims.append(t._dims[k])
      elif t._dims[k] == ONE:
        dims.append(p)
      elif dims_equal(t._dims[k], p):
        dims.append(t._dims[k])
      else:
        shape_err('expand', t._dims, [py2poly(x) for x in sizes])

  def fwd(i):
    return tuple(ZERO if d == ONE else x
                 for d, x in zip(t._dims, i[m - n:]))

  def inv(s):
    raise Unsupported('write through an expanded view')
  fac = {k + m - n: v for k, v in t._fac.items() if t._dims[k] != ONE}
  return mkview(t, dims, fwd, inv, fac)


def div_exact(a, b):
  """polynomial a / b when it divides exactly, else None"""
  c = b.const()
  if c is not None:
    if c == 0:
      return None
    r = tm.scale(a, 1 / c)
    return r if r.isint else None
  if a == b:
    return ONE
  if len(b.terms) == 1:
    bm, bc = b.terms[0]
    out = {}
    for m, k in a.terms:
      d = dict(m)
      for x, e in bm:
        if d.get(x, 0) < e:
          return None
        d[x] -= e
        if not d[x]:
          d.pop(x)
      out[tuple(sorted(d.items(), key=lambda t: t[0].key))] = k / bc
    r = Poly(out)
    return r if r.isint else None
  # general: a = q*b with constant q
  if a.terms and len(a.terms) == len(b.terms):
    q = a.terms[0][1] / b.terms[0][1]
    if tm.scale(b, q) == a and q.denominator == 1:
      return P(q)
  # try quotient by single factors of a's monomials
  for m, k in a.terms:
    for x, e in m:
      q = div_exact(a, P(x))
      if q is not None:
        r = div_exact(q, b)
        if r is not None:
          return r * P(x)
    break
  return None


def reshape_dims(t, sizes):
  sizes = [py2poly(s) for s in sizes]
  total = product(t._dims)
  neg = [k for k, s in enumerate(sizes) if s.const() == -1]
  if len(neg) > 1:
    raise RepoError('RuntimeError', 'only one dimension can be inferred')
  if neg:
    known = product([s for k, s in enumerate(sizes) if k != neg[0]])
    if known.const() == 0:
      raise RepoError('RuntimeError', 'cannot reshape with zero size')
    q = div_exact(total, known)
    if q is None:
      bad = False
      for m in AN.models:
        try:
          x, y = m(total), m(known)
        except Exception:
          continue
        if y and x % y:
          bad = True
      if bad:
        raise RepoError('ShapeError', 'shape %s is invalid for input of size %r'
                        % (sizes, total))
      q = Div(total, known)
    sizes[neg[0]] = q
  else:
    if not dims_equal(product(sizes), total):
      raise RepoError('ShapeError', 'shape %s is invalid for input of size %r'
                      % (sizes, total))
  return sizes


def reshape(t, sizes):
  dims = reshape_dims(t, sizes)
  src = list(t._dims)
  # split into groups with equal products
  groups = []
  i = j = 0
  while i < len(src) or j < len(dims):
    gi, gj = [], []
    pi = pj = ONE
    if i < len(src):
      gi.append(i)
      pi = src[i]
      i += 1
    if j < len(dims):
      gj.append(j)
      pj = dims[j]
      j += 1
    while pi != pj:
      # extend the side that divides the other
      if i < len(src) and (div_exact(pj, pi) is not None or j >= len(dims)):
        pi = pi * src[i]
        gi.append(i)
        i += 1
      elif j < len(dims):
        pj = pj * dims[j]
        gj.append(j)
        j += 1
      elif i < len(src):
        pi = pi * src[i]
        gi.append(i)
        i += 1
      else:
        break
    groups.append((gi, gj))

  def remap(idx, sgs, ssz, dgs, dsz, n):
    out = [None] * n
    for gs, gd in zip(sgs, dgs):
      if len(gs) == 1 and len(gd) == 1:
        out[gd[0]] = idx[gs[0]]
        continue
      f = ZERO
      for k in gs:
        f = f * ssz[k] + idx[k]
      rem = tm.recombine(f)
      for q in range(len(gd) - 1, 0, -1):
        s = dsz[gd[q]]
        qt = Div(rem, s)
        out[gd[q]] = Mod(rem, s)
        rem = qt
      if gd:
        out[gd[0]] = rem
    return tuple(out)
  A = [g[0] for g in groups]
  B = [g[1] for g in groups]

  def fwd(i):
    return remap(i, B, dims, A, src, len(src))

  def inv(s):
    return ONE, remap(s, A, src, B, dims, len(dims))
  fac = {}
  for gi, gj in groups:
    if len(gj) == 1 and len(gi) > 1:
      fs = []
      for k in gi:
        if k in t._fac:
          fs += list(t._fac[k])
        elif src[k] != ONE:
          fs.append(src[k])
      if len(fs) > 1:
        fac[gj[0]] = fs
    elif len(gj) == 1 and len(gi) == 1 and gi[0] in t._fac:
      fac[gj[0]] = t._fac[gi[0]]
  return mkview(t, dims, fwd, inv, fac)


def copy_of(t):
  f = t._snap()
  r = new(t._dims, t._dt, t._dev, f, fac=dict(t._fac))
  r._st.const = t._st.const if t._view is None else None
  r._isnp = t._isnp
  return r


# --------------------------------------------------------------- indexing
def wrap_index(v, size):
  if tm.ge0(v):
    return v
  if tm.ge0(-v - 1):
    return v + size
  return Ite(Ge(v), v, v + size)


def note_bound(size, index, neg):
  """An index tensor must stay inside [-size, size) (or [0, size))."""
  size = P(size)
  AN.bounds.append((size, list(index._dims), index._snap(), neg, AN.where()))
  ci = index._const_items() if size.const() is not None else None
  if ci is not None:
    n = size.const()
    for v in ci[1]:
      if not isinstance(v, tm.Poly) and not (-n if neg else 0) <= v < n:
        raise RepoError('IndexError', 'index %s is out of bounds for dimension of size %s' % (v, n))


def mask_lam(m):
  vs = [fresh(d) for d in m._dims]
  f = m._snap()
  return tm.bind(vs, f(tuple(P(v) for v in vs)))


def mask_indices(m):
  """Boolean tensor -> index tensors over its selected positions."""
  l = mask_lam(m)
  n = mk_cnt(l)
  out = []
  for j in range(len(m._dims)):
    out.append(new([n], 'int64', m._dev,
                   (lambda j: lambda idx: mk_sel(j, l, idx[0]))(j)))
  return out, l, n


class _Idx:
  __slots__ = ('base', 'adv', 'masks')


def parse_index(t, item):
  """Applies basic indexing; returns (view, {dim: index tensor}, masks)."""
  if not isinstance(item, tuple):
    item = (item,)
  items = []
  for x in item:
    if isinstance(x, list):
      x = from_list(x)
      if x._dt not in ('bool',):
        x = x
    if isinstance(x, range):
      x = from_list(list(x))
    items.append(x)
  nd = 0
  for x in items:
    if x is None or x is Ellipsis:
      continue
    if isinstance(x, T) and x._dt == 'bool' and len(x._dims) > 0:
      nd += len(x._dims)
    else:
      nd += 1
  n = len(t._dims)
  if nd > n:
    raise RepoError('IndexError', 'too many indices for tensor of dimension %d' % n)
  if Ellipsis not in [x for x in items if not isinstance(x, (T, S))]:
    items.append(Ellipsis)
  out = []
  for x in items:
    if x is Ellipsis:
      out += [slice(None)] * (n - nd)
    else:
      out.append(x)
  cur = t
  d = 0
  adv = []        # (dim, index tensor, maskinfo)
  for x in out:
    if x is None:
      cur = unsqueeze(cur, d)
      d += 1
    elif isinstance(x, slice):
      if not (x.start is None and x.stop is None and x.step is None):
        cur = slice_dim(cur, d, x.start, x.stop, x.step)
      d += 1
    elif isinstance(x, T) and x._dt == 'bool':
      if len(x._dims) == 0:
        raise Unsupported('0-d boolean index')
      for k in range(len(x._dims)):
        if not dims_equal(x._dims[k], cur._dims[d + k]):
          raise RepoError('IndexError', 'The shape of the mask %s does not '
                          'match the shape of the indexed tensor %s' % (
                              x._dims, cur._dims))
      if cur._dev != x._dev and x._dev.type != 'cpu':
        raise RepoError('DeviceError', 'mask on %s indexes a tensor on %s' % (
            x._dev, cur._dev))
      idxs, l, cnt = mask_indices(x)
      for k, it in enumerate(idxs):
        adv.append((d + k, it, (l, k)))
      d += len(x._dims)
    elif isinstance(x, T) and len(x._dims) > 0:
      if x._dt in FLOATS:
        raise RepoError('IndexError', 'tensors used as indices must be long, '
                        'int, byte or bool tensors')
      if cur._dev != x._dev and x._dev.type != 'cpu':
        raise RepoError('DeviceError', 'index on %s for a tensor on %s' % (
            x._dev, cur._dev))
      adv.append((d, x, None))
      d += 1
    elif isinstance(x, (int, S)) or isinstance(x, T):
      if isinstance(x, bool):
        raise Unsupported('bool index')
      if isinstance(x, T) and x._dt in FLOATS:
        raise RepoError('IndexError', 'tensors used as indices must be integral')
      cur = select(cur, d, x)
    else:
      if isinstance(x, (float, str)):
        raise RepoError('TypeError', 'invalid index type %s' % type(x).__name__)
      raise Unsupported('index of type %s' % type(x).__name__)
  return cur, adv


def getitem(t, item):
  cur, adv = parse_index(t, item)
  if not adv:
    return cur
  return adv_read(cur, adv)


def adv_layout(cur, adv):
  adims = broadcast_dims([a[1]._dims for a in adv], 'index')
  ds = [a[0] for a in adv]
  # adjacency
  contiguous = ds == list(range(ds[0], ds[0] + len(ds)))
  rest = [k for k in range(len(cur._dims)) if k not in ds]
  if contiguous:
    pos = ds[0]
    pre = [k for k in rest if k < pos]
    post = [k for k in rest if k > pos]
  else:
    pre, post = [], rest
  dims = [cur._dims[k] for k in pre] + list(adims) + [cur._dims[k] for k in post]
  return adims, pre, post, dims


def adv_read(cur, adv, neg=True):
  adims, pre, post, dims = adv_layout(cur, adv)
  f = cur._snap()
  n = len(cur._dims)
  na, npre = len(adims), len(pre)
  fs = [(d, it, it._snap(), mi) for d, it, mi in adv]

  def fn(idx):
    out = [None] * n
    for j, k in enumerate(pre):
      out[k] = idx[j]
    for j, k in enumerate(post):
      out[k] = idx[npre + na + j]
    ai = tuple(idx[npre:npre + na])
    for d, it, g, mi in fs:
      v = g(bidx(it, ai))
      out[d] = v if mi is not None else wrap_index(v, cur._dims[d])
    return f(tuple(out))
  fac = {}
  for j, k in enumerate(pre):
    if k in cur._fac:
      fac[j] = cur._fac[k]
  for j, k in enumerate(post):
    if k in cur._fac:
      fac[npre + na + j] = cur._fac[k]
  if len(adv) == 1:
    for k, v in adv[0][1]._fac.items():
      fac[npre + k] = v
  r = new(dims, cur._dt, cur._dev, fn, fac=fac)
  r._isnp = cur._isnp
  for d, it, g, mi in fs:
    if mi is None:
      AN.event('gather', size=cur._dims[d], index=it, dims=adims)
      note_bound(cur._dims[d], it, neg)
  if cur._st.const and all(it._st.const for d, it, g, mi in fs):
    fold(r)
  return r


def from_list(x, dtype=None, dev=None):
  shape = []
  flat = []

  def go(v, depth):
    if isinstance(v, (list, tuple)):
      if len(shape) <= depth:
        shape.append(len(v))
      elif shape[depth] != len(v):
        raise RepoError('ValueError', 'ragged nested list')
      for y in v:
        go(y, depth + 1)
    elif isinstance(v, T) and len(v._dims) > 0:
      c = [d.const() for d in v._dims]
      if None in c:
        raise Unsupported('list of symbolic-size tensors')
      if all(k == 1 for k in c):
        flat.append(v[(0,) * len(c)])
        return
      go([v[i] for i in range(int(c[0]))], depth)
    else:
      flat.append(v)
  go(x, 0)
  if dtype is None:
    dtype = None
    for v in flat:
      if isinstance(v, T):
        d = v._dt
      elif isinstance(v, bool) or (isinstance(v, S) and v.isbool):
        d = 'bool'
      elif isinstance(v, int) or (isinstance(v, S) and v.p.isint):
        d = 'int64'
      else:
        d = 'float32'
      dtype = d if dtype is None else promote(dtype, d)
    if dtype is None:
      dtype = 'float32'
  vals = []
  for v in flat:
    if isinstance(v, str) or v is None:
      raise RepoError('TypeError', 'cannot convert %r to a tensor' % (v,))
    p = cast_val(py2poly(v), dtype)
    c = p.const()
    vals.append(c if c is not None else p)
  return const_tensor(shape, vals, dtype, dev or Device('cpu'))


def setitem(t, item, val):
  cur, adv = parse_index(t, item)
  if isinstance(val, (list, tuple)):
    val = from_list(val, t._dt)
  if adv and isinstance(val, T) and val._dev != cur._dev and len(val._dims) > 0:
    raise RepoError('DeviceError', 'assignment from %s to %s' % (
        val._dev, cur._dev))
  if not adv:
    assign(cur, val)
    return
  masks = [a for a in adv if a[2] is not None]
  if len(masks) == len(adv) and len(set(a[2][0].key for a in adv)) == 1:
    mask_write(cur, adv, val)
  else:
    index_write(cur, adv, val)


def check_write_dtype(cur, val):
  if isinstance(val, T) and cat_of(val._dt) > cat_of(cur._dt) and len(val._dims):
    AN.event('lossy_write', src=val._dt, dst=cur._dt)


def assign(cur, val):
  """cur[...] = val (broadcast)"""
  if isinstance(val, T):
    vd = list(val._dims)
    while len(vd) > len(cur._dims) and vd[0] == ONE:
      vd = vd[1:]
    if len(vd) > len(cur._dims):
      shape_err('assignment', cur._dims, val._dims)
    for a, b in zip(reversed(cur._dims), reversed(vd)):
      if b != ONE and not dims_equal(a, b):
        shape_err('assignment', cur._dims, val._dims)
    check_write_dtype(cur, val)
    g = val._snap()
    nv = len(val._dims)
    nc = len(cur._dims)

    def vf(idx):
      if nv <= nc:
        return g(bidx(val, idx))
      return g((ZERO,) * (nv - nc) + tuple(
          ZERO if d == ONE else i for d, i in zip(val._dims[nv - nc:], idx)))
    cur._write(lambda idx: ONE, vf)
  else:
    p = py2poly(val)
    cur._write(lambda idx: ONE, lambda idx: p)


def mask_write(cur, adv, val):
  l = adv[0][2][0]
  adims, pre, post, dims = adv_layout(cur, adv)
  ds = {}
  for d, it, (ll, k) in adv:
    ds[k] = d
  margs = lambda idx: [idx[ds[k]] for k in range(len(ds))]
  if isinstance(val, T) and len(val._dims) > 0:
    # broadcast val against [pre..., cnt, post...]
    vd = list(val._dims)
    if len(vd) > len(dims):
      shape_err('masked assignment', dims, val._dims)
    for a, b in zip(reversed(dims), reversed(vd)):
      if b != ONE and not dims_equal(a, b):
        shape_err('masked assignment', dims, val._dims)
    check_write_dtype(cur, val)
    g = val._snap()

    def vf(idx):
      full = [idx[k] for k in pre]
      need = len(val._dims) > len(post) and \
          val._dims[len(val._dims) - len(post) - 1] != ONE
      full.append(tm.mk_rank(l, margs(idx)) if need else ZERO)
      full += [idx[k] for k in post]
      return g(bidx(val, tuple(full)))
  else:
    p = py2poly(val)
    vf = lambda idx: p
  cur._write(lambda idx: l(*margs(idx)), vf)


def index_write(cur, adv, val, accumulate=False):
  """cur[i1, i2, ...] = val with integer index tensors (scatter)."""
  adims, pre, post, dims = adv_layout(cur, adv)
  na, npre = len(adims), len(pre)
  if isinstance(val, T):
    vd = list(val._dims)
    if len(vd) > len(dims):
      shape_err('index assignment', dims, val._dims)
    for a, b in zip(reversed(dims), reversed(vd)):
      if b != ONE and not dims_equal(a, b):
        shape_err('index assignment', dims, val._dims)
    check_write_dtype(cur, val)
    g0 = val._snap()
    g = lambda full: g0(bidx(val, full))
  else:
    p = py2poly(val)
    g = lambda full: p
  fs = [(d, it, it._snap(), mi) for d, it, mi in adv]
  old = cur._snap()
  st = cur._st
  dt = cur._dt
  oldfn = st.fn
  view = cur._view
  if st.origin is not None:
    AN.event('mutate', origin=st.origin)
  st.writes += 1
  st.const = None
  AN.event('scatter', index=[f[1] for f in fs], accumulate=accumulate)
  for d, it, gg, mi in fs:
    if mi is None:
      note_bound(cur._dims[d], it, True)

  def new_(sidx):
    if view is None:
      g1, idx = ONE, sidx
    else:
      g1, idx = view.inv(sidx)
      if P(g1).const() == 0:
        return oldfn(sidx)
    vs, ai = [], []
    for k, s in enumerate(adims):
      v, i = dim_vars(s)
      vs += v
      ai.append(i)
    hit = ONE
    for d, it, gg, mi in fs:
      v = gg(bidx(it, tuple(ai)))
      if mi is None:
        v = wrap_index(v, cur._dims[d])
      hit = tm.mul(hit, Eq(v - idx[d]))
    full = tuple([idx[k] for k in pre] + ai + [idx[k] for k in post])
    value = cast_val(g(full), dt)
    s = mk_sum(vs, tm.mul(hit, value))
    if accumulate:
      r = oldfn(sidx) + s
      return r if P(g1).const() == 1 else Ite(g1, r, oldfn(sidx))
    h = mk_sum(vs, hit)
    o = oldfn(sidx)
    r = s + o - tm.mul(h, o)
    return r if P(g1).const() == 1 else Ite(g1, r, oldfn(sidx))
  st.fn = Memo(new_)
