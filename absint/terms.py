"""Symbolic value domain of the octree abstract interpreter.

Every scalar the analysed program computes is abstracted by a *normal form*:
a polynomial with rational coefficients over interned atoms.  Atoms are index
variables, applications of uninterpreted input functions (tensor contents),
Iverson brackets, sums over index spaces, selections through boolean masks,
integer division / bit slices, and uninterpreted real functions.  All
constructors normalise, so two equal normal forms denote the same value for
every tensor content, every tensor size and every batch size.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import product, permutations, count as _count
import math

INF = float('inf')


class Budget(Exception):
  pass


class Limits:
  ops = 0
  max_ops = 40_000_000


def _dig(*parts):
  h = blake2b(digest_size=12)
  for p in parts:
    h.update(str(p).encode())
    h.update(b'\x00')
  return h.hexdigest()


# ---------------------------------------------------------------- registry
class Fn:
  """Metadata of an uninterpreted function (an input of the analysis)."""
  __slots__ = ('name', 'sort', 'lo', 'hi', 'rewrite', 'ev', 'gap')

  def __init__(self, name, sort, lo=None, hi=None, rewrite=None, ev=None):
    self.name, self.sort, self.lo, self.hi = name, sort, lo, hi
    self.rewrite, self.ev = rewrite, ev
    self.gap = None          # (lo, hi): these bits of every value are zero


class Ctx:
  fns = {}
  masks = {}      # lam key -> (size poly, rank function name) registered masks
  sizes = {}      # size atom key -> lam  (inverse of masks)
  facts = []      # polys known to be >= 0
  truth = {}      # iverson atom key -> 0/1
  searched = []   # (increasing lam, its last value, size) of searched sequences
  version = 0

  @classmethod
  def reset(cls):
    cls.fns = {}
    cls.masks = {}
    cls.sizes = {}
    cls.facts = []
    cls.truth = {}
    cls.searched = []
    cls.bump()
    Atom.table.clear()
    _subst_memo.clear()
    _prove_memo.clear()
    _sum_memo.clear()
    _over_memo.clear()

  @classmethod
  def bump(cls):
    cls.version += 1
    _prove_memo.clear()
    _sum_memo.clear()
    _over_memo.clear()
    _subst_memo.clear()


_subst_memo = {}
_prove_memo = {}
_sum_memo = {}
_over_memo = {}
_fresh = _count()


class Atom:
  __slots__ = ('kind', 'data', 'key', 'isint', 'vars', 'level', '_rng')
  table = {}

  def __repr__(self):
    return show_atom(self)

  def __hash__(self):
    return hash(self.key)

  def __eq__(self, o):
    return self is o or (isinstance(o, Atom) and self.key == o.key)


def atom(kind, *data, isint=True):
  ks = [kind]
  for d in data:
    ks.append(d.key if isinstance(d, (Poly, Atom, Lam, Table)) else repr(d))
  key = _dig(*ks)
  a = Atom.table.get(key)
  if a is not None:
    return a
  a = Atom()
  a.kind, a.data, a.key, a.isint, a._rng = kind, data, key, isint, None
  vs = set()
  level = 0
  if kind == 'var':
    vs.add(a)
    level = 0
    for d in data:
      if isinstance(d, Poly):
        level = max(level, d.level)
  elif kind == 'bv':
    level = data[0]
  for d in data:
    if isinstance(d, (Poly, Atom, Lam)):
      vs |= d.vars
      if d.level > level:
        level = d.level
  a.vars = frozenset(vs)
  a.level = level
  Atom.table[key] = a
  return a


class Table:
  """Constant table (contents of a constant-folded tensor)."""
  __slots__ = ('shape', 'vals', 'key', 'isint')
  pool = {}

  @staticmethod
  def make(shape, vals):
    key = _dig('table', tuple(shape), tuple(vals))
    t = Table.pool.get(key)
    if t is None:
      t = Table()
      t.shape, t.vals, t.key = tuple(shape), tuple(vals), key
      t.isint = all(v.denominator == 1 for v in vals)
      Table.pool[key] = t
    return t


class Lam:
  """Closed abstraction: bound variables + body."""
  __slots__ = ('bvs', 'body', 'key', 'vars', 'level')

  def __init__(self, bvs, body):
    self.bvs, self.body = bvs, body
    self.key = _dig('lam', *([b.key for b in bvs] + [body.key]))
    self.vars = body.vars
    lv = body.level
    for b in bvs:
      lv = max(lv, b.level)
      self.vars = self.vars | b.vars
    self.level = lv

  def __call__(self, *args):
    if len(args) == 0:
      return self.body
    return subst(self.body, {b: P(a) for b, a in zip(self.bvs, args)})

  def sizes(self):
    return [b.data[1] for b in self.bvs]

  def __repr__(self):
    return 'λ%s.%r' % (','.join(map(repr, self.bvs)), self.body)


class Poly:
  __slots__ = ('terms', 'key', 'vars', 'level', '_isint', '_h')

  def __init__(self, terms):
    # terms: dict monomial -> Fraction, already non-zero
    items = sorted(terms.items(), key=lambda t: _mkey(t[0]))
    self.terms = tuple(items)
    h = []
    vs = frozenset()
    lv = 0
    isint = True
    for m, c in items:
      h.append(_mkey(m))
      h.append(c)
      if c.denominator != 1:
        isint = False
      for a, e in m:
        if a.vars and not (a.vars <= vs):
          vs = vs | a.vars
        if a.level > lv:
          lv = a.level
        if not a.isint or e < 0:
          isint = False
    self.key = _dig('poly', *h)
    self.vars = vs
    self.level = lv
    self._isint = isint
    self._h = hash(self.key)

  def __hash__(self):
    return self._h

  def __eq__(self, o):
    if not isinstance(o, Poly):
      o = P(o)
    return self.key == o.key

  def __ne__(self, o):
    return not self.__eq__(o)

  @property
  def isint(self):
    return self._isint

  def const(self):
    """The constant value or None."""
    if not self.terms:
      return Fraction(0)
    if len(self.terms) == 1 and self.terms[0][0] == ():
      return self.terms[0][1]
    return None

  def cterm(self):
    for m, c in self.terms:
      if m == ():
        return c
    return Fraction(0)

  def single(self):
    """The atom if the polynomial is exactly one atom."""
    if len(self.terms) == 1:
      m, c = self.terms[0]
      if c == 1 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return None

  def __add__(self, o):
    return add(self, P(o))
  __radd__ = __add__

  def __sub__(self, o):
    return add(self, scale(P(o), Fraction(-1)))

  def __rsub__(self, o):
    return add(P(o), scale(self, Fraction(-1)))

  def __neg__(self):
    return scale(self, Fraction(-1))

  def __mul__(self, o):
    return mul(self, P(o))
  __rmul__ = __mul__

  def __repr__(self):
    return show(self)

  def atoms(self):
    s = []
    for m, _ in self.terms:
      for a, e in m:
        s.append(a)
    return s


def _mkey(m):
  return tuple((a.key, e) for a, e in m)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})
_cc = {}


def P(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, Atom):
    return Poly({((x, 1),): Fraction(1)})
  if isinstance(x, bool):
    return ONE if x else ZERO
  if isinstance(x, int):
    p = _cc.get(x)
    if p is None:
      p = Poly({(): Fraction(x)}) if x else ZERO
      _cc[x] = p
    return p
  if isinstance(x, Fraction):
    return Poly({(): x}) if x else ZERO
  if isinstance(x, float):
    if math.isinf(x):
      a = P(atom('inf', isint=False))
      return a if x > 0 else -a
    if math.isnan(x):
      return P(atom('nan', isint=False))
    return P(Fraction(repr(x)))
  raise TypeError('P(%r)' % (x,))


def add(a, b):
  if not a.terms:
    return b
  if not b.terms:
    return a
  d = dict(a.terms)
  for m, c in b.terms:
    v = d.get(m, 0) + c
    if v:
      d[m] = v
    else:
      d.pop(m, None)
  return Poly(d)


def addn(ps):
  d = {}
  for p in ps:
    for m, c in p.terms:
      v = d.get(m, 0) + c
      if v:
        d[m] = v
      else:
        d.pop(m, None)
  return Poly(d)


def scale(a, c):
  if c == 1:
    return a
  if c == 0:
    return ZERO
  return Poly({m: k * c for m, k in a.terms})


_IV = ('ge', 'gt', 'eq')


def _merge_mono(m1, m2):
  """Product of two monomials, list of (atom, exp) or None if zero."""
  d = dict(m1)
  for a, e in m2:
    if a.kind in _IV:
      d[a] = 1
    else:
      v = d.get(a, 0) + e
      if v:
        d[a] = v
      else:
        d.pop(a, None)
  ivs = [a for a in d if a.kind in _IV]
  if len(ivs) > 1:
    r = _iv_interact(ivs)
    if r is None:
      return None
    for a in r:
      d.pop(a, None)
  return tuple(sorted(d.items(), key=lambda t: t[0].key))


_ivi_memo = {}


def _iv_interact(ivs):
  """Redundant brackets in a product (to drop), or None when contradictory."""
  drop = set()
  n = len(ivs)
  for i in range(n):
    for j in range(i + 1, n):
      a, b = ivs[i], ivs[j]
      if a in drop or b in drop:
        continue
      k = (a.key, b.key)
      r = _ivi_memo.get(k)
      if r is None:
        r = _iv_pair(a, b)
        _ivi_memo[k] = r
      if r == 'zero':
        return None
      if r == 'a':
        drop.add(a)
      elif r == 'b':
        drop.add(b)
  return drop


def _iv_pair(a, b):
  pa, pb = a.data[0], b.data[0]
  ints = pa.isint and pb.isint
  c = (pa - pb).const()
  if c is not None:
    # pa = pb + c
    if a.kind == 'ge' and b.kind == 'ge':
      return 'a' if c >= 0 else 'b'
    if a.kind == 'eq' and b.kind == 'eq':
      return 'zero' if c != 0 else 'b'
    if a.kind == 'eq' and b.kind == 'ge':   # pa=0 -> pb=-c
      return 'b' if -c >= 0 else 'zero'
    if a.kind == 'ge' and b.kind == 'eq':   # pb=0 -> pa=c
      return 'a' if c >= 0 else 'zero'
    if a.kind == 'gt' and b.kind == 'gt':
      return 'a' if c >= 0 else 'b'
    if a.kind == 'gt' and b.kind == 'ge':   # pa>0 -> pb>-c
      if c <= 0:
        return 'b'
      return 'a'  # pb>=0 -> pa>=c>0
    if a.kind == 'ge' and b.kind == 'gt':   # pb>0 -> pa>c
      if c >= 0:
        return 'a'
      return 'b'
    if a.kind == 'eq' and b.kind == 'gt':
      return 'b' if -c > 0 else 'zero'
    if a.kind == 'gt' and b.kind == 'eq':
      return 'a' if c > 0 else 'zero'
  c = (pa + pb).const()
  if c is not None and ints:
    # pa = c - pb
    if a.kind == 'ge' and b.kind == 'ge' and c < 0:
      return 'zero'
    if a.kind == 'eq' and b.kind == 'ge':  # pb = c
      return 'b' if c >= 0 else 'zero'
    if a.kind == 'ge' and b.kind == 'eq':
      return 'a' if c >= 0 else 'zero'
  if ints and a.kind == 'ge' and b.kind == 'ge' and \
      {x.key for m, _ in pa.terms for x, e in m if x.kind != 'var'} & \
      {x.key for m, _ in pb.terms for x, e in m if x.kind != 'var'}:
    # both hold only if the sum is nonnegative; one may imply the other
    if ge0(-pa - pb - 1):
      return 'zero'
    if ge0(pa - pb):
      return 'a'
    if ge0(pb - pa):
      return 'b'
  return 'none'


def mul(a, b):
  if not a.terms or not b.terms:
    return ZERO
  ca, cb = a.const(), b.const()
  if ca is not None:
    return scale(b, ca)
  if cb is not None:
    return scale(a, cb)
  Limits.ops += len(a.terms) * len(b.terms)
  if len(a.terms) * len(b.terms) > 60000:
    raise Budget('product too large')
  d = {}
  for m1, c1 in a.terms:
    for m2, c2 in b.terms:
      m = _merge_mono(m1, m2)
      if m is None:
        continue
      v = d.get(m, 0) + c1 * c2
      if v:
        d[m] = v
      else:
        d.pop(m, None)
  r = Poly(d)
  return _ctx_simplify(r)


def mulall(ps):
  r = ONE
  for p in ps:
    r = mul(r, p)
  return r


# --------------------------------------------- contextual simplification
def _ctx_simplify(p):
  """Uses the brackets of each monomial as facts for its other atoms."""
  need = False
  for m, _ in p.terms:
    for a, e in m:
      if a.kind in _IV:
        need = True
        break
    if need:
      break
  if not need:
    return p
  out = None
  for idx, (m, c) in enumerate(p.terms):
    r = _ctx_mono(m)
    if r is not None:
      if out is None:
        out = [Poly({m2: c2}) for m2, c2 in p.terms]
      out[idx] = scale(r, c)
  if out is None:
    return p
  return addn(out)


_cm_memo = {}


def _ctx_mono(m):
  """Returns a replacement Poly for the monomial or None."""
  ivs = [a for a, e in m if a.kind in _IV]
  if not ivs:
    return None
  k = _mkey(m) + (Ctx.version,)
  if k in _cm_memo:
    return _cm_memo[k]
  _cm_memo[k] = None
  res = None
  # equality brackets: substitute an atom by the other side in other brackets
  for q in ivs:
    if q.kind != 'eq':
      continue
    sol = _solve_unit(q.data[0])
    if sol is None:
      continue
    a, t = sol
    changed = False
    rest = []
    for b, e in m:
      if b is q:
        rest.append(P(b))
        continue
      if b.kind in _IV and contains(b, a):
        nb = subst_atom(b, {a: t})
        if nb.single() is not b:
          changed = True
          rest.append(nb)
          continue
      rest.append(powp(P(b), e))
    if changed:
      res = mulall(rest)
      break
  if res is None:
    # sel(m, rank) style rewrites under a guard
    for i, (b, e) in enumerate(m):
      rep = _guarded(b, ivs)
      if rep is not None:
        rest = [powp(P(x), ex) for j, (x, ex) in enumerate(m) if j != i]
        res = mul(mulall(rest), powp(rep, e))
        break
  if len(_cm_memo) > 400000:
    _cm_memo.clear()
  _cm_memo[k] = res
  return res


def _guarded(a, ivs):
  """Rewrites nested sel(mask, child(i)) -> i for guards [child(i) >= 0]."""
  if not has_kind(a, 'sel'):
    return None
  sub = {}
  for g in ivs:
    if g is a or g.kind != 'ge':
      continue
    s = g.data[0].single()
    if s is None or s.kind != 'app':
      continue
    reg = Ctx.rank_of.get(s.data[0]) if hasattr(Ctx, 'rank_of') else None
    if reg is None:
      continue
    lam = reg
    selatom = atom('sel', 0, lam, P(s))
    if contains(a, selatom):
      sub[selatom] = s.data[1]
  if not sub:
    return None
  return subst_atom(a, sub)


Ctx.rank_of = {}   # function name f -> lam mask such that f(i)=rank when mask(i)


def _solve_unit(p):
  """p == 0 solved for an application atom with unit coefficient."""
  best = None
  for m, c in p.terms:
    if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
      a = m[0][0]
      if a.kind in ('app', 'sum', 'uinv'):
        rest = add(p, Poly({m: -c}))
        if contains_poly(rest, a):
          continue
        t = scale(rest, -1 / c)
        if best is None or a.key < best[0].key:
          best = (a, t)
  return best


_has_memo = {}


def has_kind(x, kind):
  k = (x.key, kind)
  r = _has_memo.get(k)
  if r is not None:
    return r
  r = False
  if isinstance(x, Atom):
    if x.kind == kind:
      r = True
    else:
      for d in x.data:
        if isinstance(d, (Poly, Lam, Atom)) and has_kind(d, kind):
          r = True
          break
  elif isinstance(x, Lam):
    r = has_kind(x.body, kind)
  else:
    for m, c in x.terms:
      for a, e in m:
        if has_kind(a, kind):
          r = True
          break
      if r:
        break
  if len(_has_memo) > 500000:
    _has_memo.clear()
  _has_memo[k] = r
  return r


_cont_memo = {}


def contains(x, a):
  """Does atom/poly/lam x contain atom a."""
  if x is a or (isinstance(x, Atom) and x.key == a.key):
    return True
  k = (x.key, a.key)
  r = _cont_memo.get(k)
  if r is not None:
    return r
  r = False
  if a.vars and not (a.vars <= x.vars):
    r = False
  elif isinstance(x, Atom):
    for d in x.data:
      if isinstance(d, (Poly, Lam, Atom)) and contains(d, a):
        r = True
        break
  elif isinstance(x, Lam):
    r = contains(x.body, a) or any(contains(b, a) for b in x.bvs)
  else:
    r = contains_poly(x, a)
  if len(_cont_memo) > 500000:
    _cont_memo.clear()
  _cont_memo[k] = r
  return r


def contains_poly(p, a):
  for m, c in p.terms:
    for b, e in m:
      if contains(b, a):
        return True
  return False


# ------------------------------------------------------------ substitution
def subst(p, mp):
  """Substitutes atoms by polynomials (capture free), renormalising."""
  if not mp:
    return p
  sk = (p.key, tuple(sorted((a.key, q.key) for a, q in mp.items())))
  r = _subst_memo.get(sk)
  if r is not None:
    return r
  if not any(contains(p, a) for a in mp):
    return p
  out = []
  for m, c in p.terms:
    if not any(contains(a, k) for a, e in m for k in mp):
      out.append(Poly({m: c}))
      continue
    fs = [P(c)]
    # brackets first: they may kill the monomial early
    for a, e in sorted(m, key=lambda t: t[0].kind not in _IV):
      f = subst_atom(a, mp)
      if not f.terms:
        if e < 0:
          raise ZeroDivisionError
        fs = None
        break
      fs.append(powp(f, e))
    if fs is not None:
      out.append(mulall(fs))
  r = addn(out)
  if len(_subst_memo) > 300000:
    _subst_memo.clear()
  _subst_memo[sk] = r
  return r


def subst_atom(a, mp):
  r = mp.get(a)
  if r is not None:
    return r
  if not any(contains(a, k) for k in mp):
    return P(a)
  k, d = a.kind, a.data
  if k in ('var', 'bv'):
    return P(a)
  if k == 'sum':
    bvs, body = d[:-1], d[-1]
    fr = [fresh(subst(b.data[1], mp)) for b in bvs]
    body2 = subst(body, {b: P(f) for b, f in zip(bvs, fr)})
    body2 = subst(body2, mp)
    return mk_sum(fr, body2)
  nd = []
  for x in d:
    if isinstance(x, Poly):
      nd.append(subst(x, mp))
    elif isinstance(x, Lam):
      nd.append(subst_lam(x, mp))
    else:
      nd.append(x)
  return rebuild(k, nd, a)


def subst_lam(l, mp):
  if not any(contains(l, k) for k in mp):
    return l
  fr = [fresh(subst(b.data[1], mp)) for b in l.bvs]
  body = subst(l.body, {b: P(f) for b, f in zip(l.bvs, fr)})
  body = subst(body, mp)
  return bind(fr, body)


def rebuild(kind, d, a=None):
  f = _REBUILD.get(kind)
  if f is None:
    return P(atom(kind, *d, isint=a.isint))
  return f(*d)


def fresh(size, name=None):
  """A fresh index variable ranging over [0, size)."""
  n = next(_fresh)
  return atom('var', '%s%d' % (name or '_v', n), P(size))


def named(name, size):
  return atom('var', name, P(size))


def bind(vs, body):
  """Lam over the given (fresh) variables."""
  base = body.level
  for v in vs:
    base = max(base, v.data[1].level)
  bvs = []
  for j, v in enumerate(vs):
    bvs.append(atom('bv', base + 1 + j, v.data[1]))
  body = subst(body, {v: P(b) for v, b in zip(vs, bvs)})
  if base:
    # the substitution may have simplified inner binders away
    back = subst(body, {b: P(v) for v, b in zip(vs, bvs)})
    if max([back.level] + [v.data[1].level for v in vs]) < base:
      return bind(vs, back)
  return Lam(tuple(bvs), body)


def lam(fn, *sizes):
  vs = [fresh(s) for s in sizes]
  return bind(vs, P(fn(*[P(v) for v in vs])))


# ------------------------------------------------------------------ ranges
def arange_of(a):
  """(lo, hi) of an atom: numbers or Polys or None."""
  k = a.kind
  if k in ('var', 'bv'):
    return 0, add(a.data[1], P(-1))
  if k in _IV:
    return 0, 1
  if k == 'app':
    f = Ctx.fns.get(a.data[0])
    if f is None:
      return None, None
    lo = f.lo(*a.data[1:]) if callable(f.lo) else f.lo
    hi = f.hi(*a.data[1:]) if callable(f.hi) else f.hi
    return lo, hi
  if k == 'sel':
    return 0, add(a.data[1].sizes()[a.data[0]], P(-1))
  if k == 'rank':
    return 0, None
  if k == 'unum' or k == 'cnum':
    n = a.data[0].sizes()[0]     # no tensor has more than 2^40 elements
    return int(ge0(n - 1)), min(nrange(n)[1], 2 ** 40)
  if k == 'cnt':
    return 0, None
  if k == 'slc':
    src, s, n = a.data
    if n is not None:
      return 0, 2 ** n - 1
    lo, hi = nrange(src)
    lo = math.floor(lo / 2 ** s) if lo > -INF else None
    x = src.single()
    if x is not None:
      h = arange_of(x)[1]
      if isinstance(h, Poly):
        return lo, Div(h, P(2 ** s))
    if hi < INF:
      return lo, math.floor(hi / 2 ** s)
    return lo, None
  if k == 'div':
    p, q = a.data
    c = q.const()
    if c is not None and c > 0:
      lo, hi = nrange(p)
      return (math.floor(lo / c) if lo > -INF else None,
              math.floor(hi / c) if hi < INF else None)
    if ge0(p) and ge0(q - 1):
      return 0, None
    return None, None
  if k == 'tab':
    v = a.data[0].vals or (0,)
    return min(v), max(v)
  if k in ('abs', 'sqrt', 'exp', 'norm2'):
    return 0, None
  if k == 'ucnt':
    return 1, None
  if k in ('uinv', 'upos'):
    return 0, add(P(atom('unum', a.data[0])), P(-1))
  if k == 'cinv':
    return 0, add(P(atom('cnum', a.data[0])), P(-1))
  if k in ('uval', 'cval', 'sorted'):
    lo, hi = _case_range(a.data[0].body, 6)
    return (lo if lo > -INF else None), (hi if hi < INF else None)
  if k == 'lb':
    return 0, a.data[0].sizes()[0]
  if k == 'floor' or k == 'trunc':
    lo, hi = nrange(a.data[0])
    f = math.floor if k == 'floor' else math.trunc
    return (f(lo) if lo > -INF else None, f(hi) if hi < INF else None)
  if k == 'sum':
    if ge0(a.data[-1]):
      return 0, None
  if k == 'red':
    op, l = a.data[0], a.data[1]
    if op in ('argmax', 'argmin'):
      return 0, add(l.sizes()[0], P(-1))
    if op in ('max', 'min'):
      lo, hi = nrange(l.body)
      return (None if lo == -INF else lo), (None if hi == INF else hi)
  if k == 'rnd01':
    return 0, 1
  return None, None


def nrange_atom(a):
  if a._rng is not None and a._rng[0] == Ctx.version:
    return a._rng[1]
  a._rng = (Ctx.version, (-INF, INF))
  lo, hi = arange_of(a)
  if isinstance(lo, Poly):
    lo = nrange(lo)[0]
  if isinstance(hi, Poly):
    hi = nrange(hi)[1]
  r = (-INF if lo is None else lo, INF if hi is None else hi)
  a._rng = (Ctx.version, r)
  return r


def _case_range(p, fuel):
  """Range of a term with its brackets split into cases."""
  b = next((a for m, c in p.terms for a, e in m if a.kind in _IV), None)
  if b is None or not fuel:
    return nrange(p)
  x, y = [_case_range(subst(p, {b: P(v)}), fuel - 1) for v in (0, 1)]
  return min(x[0], y[0]), max(x[1], y[1])


def _imul(x, y):
  vs = []
  for u in x:
    for v in y:
      if u == 0 or v == 0:
        vs.append(0)
      else:
        vs.append(u * v if abs(u) != INF and abs(v) != INF else
                  (INF if (u > 0) == (v > 0) else -INF))
  return min(vs), max(vs)


def nrange(p):
  lo = hi = 0
  for m, c in p.terms:
    r = (1, 1)
    for a, e in m:
      ar = nrange_atom(a)
      if e < 0:
        if ar[0] > 0:
          ar = (0 if ar[1] == INF else 1 / Fraction(ar[1]), 1 / Fraction(ar[0]))
        else:
          ar = (0, INF) if ar[0] >= 0 else (-INF, INF)
        e = -e
      if e % 2 == 0 and e > 0:
        q = max(abs(ar[0]), abs(ar[1]))
        lo2 = 0 if ar[0] <= 0 <= ar[1] else min(abs(ar[0]), abs(ar[1]))
        ar = (lo2 ** e, q ** e if q != INF else INF)
        r = _imul(r, ar)
      else:
        for _ in range(e):
          r = _imul(r, ar)
    r = _imul(r, (c, c))
    lo = lo + r[0]
    hi = hi + r[1]
  return lo, hi


def ge0(p, depth=0):
  """Proves p >= 0 (sound, incomplete)."""
  c = p.const()
  if c is not None:
    return c >= 0
  k = p.key
  r = _prove_memo.get(k)
  if r is not None:
    return r
  if depth == 0:
    _fuel[0] = 150
  else:
    _fuel[0] -= 1
    if _fuel[0] < 0:
      return False
  _prove_memo[k] = False
  r = _ge0(p, depth)
  _prove_memo[k] = r
  return r


_fuel = [0]


def _vertex_min(p):
  """Minimum of a multilinear polynomial over a box (None if it is neither)."""
  if len(p.terms) < 3 or all(len(m) < 2 for m, c in p.terms):
    return None
  ats = []
  for m, c in p.terms:
    for a, e in m:
      if e != 1 or a.isint:
        return None
      if a not in ats:
        ats.append(a)
  if len(ats) > 6 or any(contains(a, b) for a in ats for b in ats if a is not b):
    return None
  box = [nrange_atom(a) for a in ats]
  if any(abs(x) == INF for r in box for x in r):
    return None
  best = INF
  for pt in product(*box):
    val = dict(zip(ats, pt))
    s = 0
    for m, c in p.terms:
      for a, e in m:
        c = c * val[a]
      s += c
    best = min(best, s)
  return best


def _joined_sum(p):
  """Body of the difference of sums over one range (its sign decides theirs)."""
  parts, size = [], None
  for m, c in p.terms:
    if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'sum' or len(m[0][0].data) != 2:
      return None
    bv, body = m[0][0].data
    if size is not None and bv.data[1].key != size.key:
      return None
    size = bv.data[1]
    parts.append((bv, body, c))
  if len(parts) < 2:
    return None
  v = fresh(size)
  return addn([scale(subst(b, {bv: P(v)}), c) for bv, b, c in parts])


def _ge0(p, depth):
  lo, hi = nrange(p)
  if lo >= 0:
    return True
  if hi < 0:
    return False
  if depth > 4:
    return False
  v = _vertex_min(p)
  if v is not None:
    return v >= 0
  # replace a symbolically bounded atom by its extreme
  seen = set()
  for m, c in p.terms:
    for a, e in m:
      if a in seen or e != 1:
        continue
      seen.add(a)
      blo, bhi = arange_of(a)
      if blo is None and bhi is None:
        continue
      co, rest, ok = {}, {}, True
      for m2, c2 in p.terms:
        d = dict(m2)
        if a in d:
          if d[a] != 1:
            ok = False
            break
          d.pop(a)
          mm = tuple(sorted(d.items(), key=lambda t: t[0].key))
          if any(contains(x, a) for x, _ in mm):
            ok = False
            break
          co[mm] = co.get(mm, 0) + c2
        else:
          rest[m2] = c2
      if not ok:
        continue
      cp = Poly({m_: c_ for m_, c_ in co.items() if c_})
      l2, h2 = nrange(cp)
      if l2 >= 0 and blo is not None:
        b = P(blo) if not isinstance(blo, Poly) else blo
      elif h2 <= 0 and bhi is not None:
        b = P(bhi) if not isinstance(bhi, Poly) else bhi
      else:
        continue
      if contains_poly(P(b), a):
        continue
      q = Poly(rest) + cp * b
      if q != p and ge0(q, depth + 1):
        return True
  if depth < 3:
    q = _joined_sum(p)
    if q is not None and ge0(q, depth + 1):
      return True
  if depth < 2:
    for f in Ctx.facts:
      if any(contains(p, x) for x in f.atoms()):
        q = p - f
        if q.key != p.key:
          lo, _ = nrange(q)
          if lo >= 0 or (depth < 1 and ge0(q, depth + 3)):
            return True
  return False


# ---------------------------------------------------------------- brackets
def _split_lead(p):
  """leading (non constant) coefficient by canonical monomial order."""
  for m, c in p.terms:
    if m != ():
      return c
  return None


def _gcd_frac(cs):
  num, den = 0, 1
  for c in cs:
    num = math.gcd(num, abs(c.numerator))
    den = den * c.denominator // math.gcd(den, c.denominator)
  return num, den


def mk_iv(kind, p):
  a = atom(kind, p)
  t = Ctx.truth.get(a.key)
  if t is not None:
    return P(t)
  return P(a)


def find_iv(p):
  """Smallest bracket occurring at the top level of the polynomial."""
  best = None
  for m, c in p.terms:
    for a, e in m:
      if a.kind in _IV and (best is None or a.key < best.key):
        best = a
  return best


def shannon(polys, fn):
  """Applies fn to argument polynomials, case splitting on brackets."""
  best = None
  for p in polys:
    b = find_iv(p)
    if b is not None and (best is None or b.key < best.key):
      best = b
  if best is None:
    return fn(*polys)
  Limits.ops += 1
  t = [subst(p, {best: ONE}) for p in polys]
  f = [subst(p, {best: ZERO}) for p in polys]
  g = P(best)
  pos = mul(g, shannon(t, fn))
  neg_v = shannon(f, fn)
  return add(pos, add(neg_v, scale(mul(g, neg_v), Fraction(-1))))


def Ge(p):
  """[p >= 0]"""
  p = P(p)
  return shannon([p], _Ge)


def _Ge(p):
  c = p.const()
  if c is not None:
    return P(c >= 0)
  if not p.isint:
    r = _inf_sign(p)
    if r is not None:
      return P(r > 0)
  if ge0(p):
    return ONE
  if p.isint:
    if ge0(-p - 1):
      return ZERO
    s = _sel_truth('ge', p)
    if s is not None:
      return s
    s = _last_key(p)
    if s is not None:
      return s
    cs = [c for m, c in p.terms if m != ()]
    g, _ = _gcd_frac(cs)
    if g > 1:
      k = p.cterm()
      p = Poly({m: c / g for m, c in p.terms if m != ()}) + \
          math.floor(k / g)
    if _split_lead(p) < 0:
      return ONE - mk_iv('ge', -p - 1)
    return mk_iv('ge', p)
  lo, hi = nrange(p)
  if hi < 0:
    return ZERO
  r = _int_plus_frac(p)
  if r is not None:
    return Ge(r)
  lead = _split_lead(p)
  q = scale(p, 1 / abs(lead))
  if lead > 0:
    return mk_iv('ge', q)
  return ONE - mk_iv('gt', -q)


def _int_plus_frac(p):
  """Integer part I when p is proportional to I + R with 0 <= R < 1."""
  it = {m: c for m, c in p.terms if m != () and all(a.isint and e > 0 for a, e in m)}
  if not it or len(it) == len(p.terms):
    return None
  g = Fraction(*_gcd_frac(list(it.values())))
  q = scale(p, 1 / g)
  I = scale(Poly(it), 1 / g)
  R = q - I
  lo, hi = nrange(R)
  if lo == -INF or hi == INF:
    return None
  k = math.floor(lo)
  if hi < k + 1:
    return I + k
  return None


def _last_key(p):
  """[q > keys[N-1]] of a searched, increasing sequence == [lb(keys, q) >= N]."""
  for l, last, n in Ctx.searched:
    a = last.single()
    if a is None:
      continue
    for m, c in p.terms:
      if len(m) == 1 and m[0] == (a, 1) and abs(c) == 1:
        if c < 0:
          q = p + last               # p >= 0  <=>  q >= last  <=>  q + 1 > last
          if contains(q, a):
            continue
          return Ge(mk_lb(l, q + 1) - n)
        q = last - p
        if contains(q, a):
          continue
        # last - q >= 0  <=>  not (q > last)
        return ONE - Ge(mk_lb(l, q) - n)
  return None


def _eq_last(p):
  """q == keys[N-1] implies [lb(keys, q) <= N-1]."""
  for l, last, n in Ctx.searched:
    a = last.single()
    for m, c in p.terms:
      if a is not None and len(m) == 1 and m[0] == (a, 1) and abs(c) == 1:
        q = last - p if c > 0 else last + p
        if not contains(q, a):
          return Ge(n - 1 - mk_lb(l, q))
  return ONE


def _inf_sign(p):
  for m, c in p.terms:
    if len(m) == 1 and m[0][0].kind == 'inf' and m[0][1] == 1:
      return 1 if c > 0 else -1
  return None


def Gt(p):
  """[p > 0]"""
  p = P(p)
  if p.isint:
    return Ge(p - 1)
  return ONE - Ge(-p)


def Eq(p):
  p = P(p)
  return shannon([p], _Eq)


def _Eq(p):
  c = p.const()
  if c is not None:
    return P(c == 0)
  if p.isint:
    if ge0(p - 1) or ge0(-p - 1):
      return ZERO
    cs = [c for m, c in p.terms if m != ()]
    g, _ = _gcd_frac(cs)
    k = p.cterm()
    if g > 1:
      if k % g != 0:
        return ZERO
      p = scale(p, Fraction(1, g))
    if ge0(p):
      return ONE - Ge(p - 1)
    if ge0(-p):
      return ONE - Ge(-p - 1)
    r = _eq_bits(p)
    if r is not None:
      return r
    r = _eq_mixed(p) or _eq_unique(p)
    if r is not None:
      return r
    s = _sel_truth('eq', p)
    if s is not None:
      return s
    if _split_lead(p) < 0:
      p = -p
    return mul(mk_iv('eq', p), _eq_last(p))
  lo, hi = nrange(p)
  if lo > 0 or hi < 0:
    return ZERO
  if _inf_sign(p) is not None:
    return ZERO
  p = scale(p, 1 / _split_lead(p))
  return mk_iv('eq', p)


def _eq_mixed(p):
  """c*q + r == 0 with 0 <= r < c  <=>  q == 0 and r == 0 (mixed radix)."""
  cs = sorted(set(abs(c) for m, c in p.terms if m != ()), reverse=True)
  for c in cs:
    if c <= 1:
      break
    hi = Poly({m: k / c for m, k in p.terms if k % c == 0})
    lo = Poly({m: k for m, k in p.terms if k % c != 0})
    if not hi.terms or not lo.terms:
      continue
    l, h = nrange(lo)
    if l > -c and h < c:
      return _eq_digits(hi, lo) or mul(Eq(hi), Eq(lo))
    # constant may straddle: try moving multiples of c out of the constant
  return None


def _eq_unique(p):
  """Equalities about the distinct values of a list."""
  top = [(m[0][0], c) for m, c in p.terms if len(m) == 1 and m[0][1] == 1]
  if not any(a.kind in ('upos', 'uval') or a.kind == 'slc' and
             (a.data[0].single() or a).kind in ('upos', 'uval') for a, c in top):
    return None
  # position of the member q is x  <=>  q is the x-th value
  for a, c in top:
    if a.kind == 'upos' and abs(c) == 1:
      x = P(a) - scale(p, 1 / c)
      if not contains_poly(x, a) and ge0(x) and ge0(P(atom('unum', a.data[0])) - 1 - x):
        return Eq(a.data[1] - mk_u('uval', a.data[0], x))
  # mixed radix after splitting the digits of wide values
  for c in sorted(set(abs(c) for m, c in p.terms if m != ()), reverse=True):
    if c <= 1 or int(c) & (int(c) - 1):
      continue
    n = int(c).bit_length() - 1
    q = p
    for a, k in top:
      lo, hi = nrange_atom(a)
      if abs(k) == 1 and lo >= 0 and hi >= c:
        q = q - scale(P(a), k) + scale(scale(mk_slc(P(a), n, None), c) + mk_slc(P(a), 0, n), k)
    if q.key == p.key:
      continue
    hi = Poly({m: k / c for m, k in q.terms if k % c == 0})
    lo = Poly({m: k for m, k in q.terms if k % c != 0})
    if hi.terms and lo.terms:
      l, h = nrange(lo)
      if l > -c and h < c:
        return _eq_digits(hi, lo) or mul(Eq(hi), Eq(lo))
  return None


def _eq_digits(hi, lo):
  """All digits of a and b agree  <=>  a == b."""
  def pair(p, s, n):
    t = {}
    for m, c in p.terms:
      if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'slc' or m[0][0].data[1:] != (s, n):
        return None
      t[c] = m[0][0].data[0]
    if len(t) != 2 or sum(t) != 0:
      return None
    return t[max(t)], t[min(t)]
  t = next((a for m, c in hi.terms for a, e in m), None)
  if t is None or t.kind != 'slc' or t.data[2] is not None:
    return None
  s = t.data[1]
  h, l = pair(hi, s, None), pair(lo, 0, s)
  if h is None or l is None or set(x.key for x in h) != set(x.key for x in l):
    return None
  if not all(ge0(x) for x in h):
    return None
  return Eq(h[0] - h[1])


def _eq_bits(p):
  return None


def _sel_truth(kind, p):
  """Brackets known from mask selections: mask(sel(mask, e)) = 1."""
  if not has_kind(p, 'sel'):
    return None
  lams = {}
  _collect_sel(p, lams, 0)
  for (lk, ek), (l, e) in lams.items():
    if (lk, ek) in _sel_busy:
      continue
    args = [P(atom('sel', j, l, e)) for j in range(len(l.bvs))]
    _sel_busy.add((lk, ek))
    try:
      body = l(*args)
    finally:
      _sel_busy.discard((lk, ek))
    for m, c in _and_factors(body):
      if m.kind == kind and m.data[0].key == p.key:
        return P(c)
      # sign-flipped canonical form of the same bracket
      if m.kind == kind == 'ge':
        if m.data[0].key == (-p - 1).key:
          return P(1 - c)
        d = (p - m.data[0]).const()
        if d is not None and c == 1 and d >= 0:
          return ONE
        d = (p + m.data[0]).const()
        if d is not None and c == 1 and d < 0:
          return ZERO
        d = (p - m.data[0]).const()
        if d is not None and c == 0 and d <= 0:
          return ZERO
      if m.kind == kind == 'eq' and m.data[0].key == (-p).key:
        return P(c)
  return None


_sel_busy = set()


def _collect_sel(x, out, depth):
  if depth > 6:
    return
  for m, c in x.terms:
    for a, e in m:
      _collect_sel_atom(a, out, depth)


def _collect_sel_atom(a, out, depth):
  if not has_kind(a, 'sel'):
    return
  if a.kind == 'sel':
    out[(a.data[1].key, a.data[2].key)] = (a.data[1], a.data[2])
    _collect_sel(a.data[2], out, depth + 1)
    return
  if a.kind in ('sum', 'red'):
    return
  for d in a.data:
    if isinstance(d, Poly):
      _collect_sel(d, out, depth + 1)


def _and_factors(body):
  """Brackets implied by body == 1: list of (atom, truth value)."""
  if len(body.terms) == 1:
    m, c = body.terms[0]
    if c == 1:
      return [(a, 1) for a, e in m if a.kind in _IV]
  if len(body.terms) == 2:
    d = dict(body.terms)
    if d.get(()) == 1:
      for m, c in body.terms:
        if m != () and c == -1 and len(m) == 1 and m[0][0].kind in _IV:
          return [(m[0][0], 0)]
  # factor common brackets: body = g * rest
  common = None
  for m, c in body.terms:
    s = set(a for a, e in m if a.kind in _IV)
    common = s if common is None else common & s
  return [(a, 1) for a in (common or ())]


def Not(b):
  return ONE - P(b)


def And(a, b):
  return mul(P(a), P(b))


def Or(a, b):
  a, b = P(a), P(b)
  return a + b - mul(a, b)


def Ite(c, a, b):
  c = P(c)
  k = c.const()
  if k is not None:
    return P(a) if k != 0 else P(b)
  a, b = P(a), P(b)
  if a == b:
    return a
  # b under not c : b - c*b ; simplify c*b with the guard active
  return mul(c, a) + b - mul(c, b)


# ---------------------------------------------------------------- powers
def powp(p, e):
  if e == 1:
    return p
  if e == 0:
    return ONE
  if e > 0:
    r = ONE
    for _ in range(e):
      r = mul(r, p)
    return r
  return inv(powp(p, -e))


def inv(p):
  p = P(p)
  c = p.const()
  if c is not None:
    if c == 0:
      return P(atom('inf', isint=False))
    return P(1 / c)
  if len(set(a for m, c in p.terms for a, e in m if a.kind in _IV)) > 6:
    return _inv(p)               # a sum over many cases is kept as it is
  return shannon([p], _inv)


def _inv(p):
  c = p.const()
  if c is not None:
    if c == 0:
      return P(atom('inf', isint=False))
    return P(1 / c)
  if len(p.terms) == 1:
    m, c = p.terms[0]
    if any(a.kind in _IV for a, e in m):
      pass
    return Poly({tuple((a, -e) for a, e in m): 1 / c})
  lead = p.terms[-1][1] if p.terms[-1][0] != () else p.terms[0][1]
  q = scale(p, 1 / lead)
  g = atom('grp', q, isint=False)
  return Poly({((g, -1),): 1 / lead})


# ---------------------------------------------------------------- sums
def mk_sum(vs, body):
  """Sum of body over the (fresh) variables vs."""
  body = P(body)
  mk = (tuple(v.key for v in vs), body.key, Ctx.version)
  r = _sum_memo.get(mk)
  if r is not None:
    return r
  Limits.ops += len(body.terms)
  out = []
  for m, c in body.terms:
    out.append(scale(_sum_mono(list(vs), m), c))
  r = addn(out)
  if len(_sum_memo) > 200000:
    _sum_memo.clear()
    _over_memo.clear()
  _sum_memo[mk] = r
  return r


def _sum_mono(vs, m):
  # sums whose variables occur nowhere
  outside, inside = [], []
  vset = set(vs)
  for a, e in m:
    (inside if (a.vars & vset) else outside).append((a, e))
  used = set()
  for a, e in inside:
    used |= (a.vars & vset)
  # variables occurring only through another variable's size stay
  for v in vs:
    for w in used:
      used = used | (w.data[1].vars & vset)
  coef = ONE
  for v in vs:
    if v not in used:
      coef = mul(coef, v.data[1])
  vs = [v for v in vs if v in used]
  outp = Poly({tuple(outside): Fraction(1)})
  if not vs:
    return mul(coef, outp)
  # size one / zero
  for v in vs:
    sc = v.data[1].const()
    if sc is not None and sc <= 0:
      return ZERO
    if sc == 1:
      body = subst(Poly({tuple(inside): Fraction(1)}), {v: ZERO})
      return mul(mul(coef, outp), mk_sum([w for w in vs if w is not v], body))
  # flatten one nested sum depending on vs
  nsum = [(a, e) for a, e in inside if a.kind == 'sum']
  if len(nsum) == 1 and nsum[0][1] == 1:
    s = nsum[0][0]
    bvs, b = s.data[:-1], s.data[-1]
    fr = []
    mp = {}
    for bv in bvs:
      f = fresh(subst(bv.data[1], mp))
      mp[bv] = P(f)
      fr.append(f)
    b2 = subst(b, mp)
    rest = Poly({tuple((a, e) for a, e in inside if a is not s): Fraction(1)})
    return mul(mul(coef, outp), mk_sum(vs + fr, mul(rest, b2)))
  # delta elimination
  for a, e in inside:
    if a.kind != 'eq':
      continue
    for v in vs:
      t = _solve_var(a.data[0], v)
      if t is None:
        continue
      # other variable sizes must not depend on v
      if any(v in w.data[1].vars for w in vs if w is not v):
        continue
      rest = Poly({tuple((b, f) for b, f in inside if b is not a):
                   Fraction(1)})
      sz = v.data[1]
      nb = mul(mul(Ge(t), Ge(sz - 1 - t)), subst(rest, {v: t}))
      return mul(mul(coef, outp), mk_sum([w for w in vs if w is not v], nb))
  # an equation on the child rank selects the node: ch(v) == t
  for a, e in inside:
    if a.kind != 'eq':
      continue
    r = _solve_rank(a.data[0], vs)
    if r is None:
      continue
    v, t, l = r
    rest = Poly({tuple((b, f) for b, f in inside if b is not a): Fraction(1)})
    nb = mul(mul(Ge(t), Ge(mk_cnt(l) - 1 - t)), subst(rest, {v: mk_sel(0, l, t)}))
    return mul(mul(coef, outp), mk_sum([w for w in vs if w is not v], nb))
  # a variable used through quotient and remainder splits into two
  for a, e in inside:
    if a.kind != 'eq':
      continue
    for v in vs:
      k = _quot_of(a.data[0], v)
      if k is None:
        continue
      if any(v in w.data[1].vars for w in vs if w is not v):
        continue
      q = _exact(v.data[1], k)
      if q is None:
        continue
      hi, lo = fresh(q), fresh(P(k))
      nb = subst(Poly({tuple(inside): Fraction(1)}), {v: P(hi) * k + P(lo)})
      return mul(mul(coef, outp), mk_sum([w for w in vs if w is not v] + [hi, lo], nb))
  # masks: sum over cnt(lam)
  for v in vs:
    l = _mask_of_size(v.data[1])
    if l is None:
      continue
    mono = Poly({tuple(inside): Fraction(1)})
    if v.data[1].single().kind != 'cnt' and not _has_sel_of(mono, l, v):
      continue
    fr = [fresh(s) for s in l.sizes()]
    args = [P(f) for f in fr]
    guard = l(*args)
    sub = {atom('sel', j, l, P(v)): args[j] for j in range(len(fr))}
    b2 = subst(mono, sub)
    if v in b2.vars:
      b2 = subst(b2, {v: mk_rank(l, args)})
    b2 = mul(guard, b2)
    return mul(mul(coef, outp),
               mk_sum([w for w in vs if w is not v] + fr, b2))
  # two-variable mixed radix delta: c*v + w == t, 0<=w<c
  for a, e in inside:
    if a.kind != 'eq':
      continue
    r = _solve_radix(a.data[0], vs)
    if r is None:
      continue
    (v, tv), (w, tw) = r
    rest = Poly({tuple((b, f) for b, f in inside if b is not a): Fraction(1)})
    nb = mul(mul(Ge(tv), Ge(v.data[1] - 1 - tv)), subst(rest, {v: tv, w: tw}))
    return mul(mul(coef, outp),
               mk_sum([x for x in vs if x is not v and x is not w], nb))
  # small constant domains appearing inside tables only / cheap: keep symbolic
  mono = tuple(inside)
  return mul(mul(coef, outp), _canon_sum(vs, mono))


def _solve_rank(p, vs):
  """p == 0  <=>  child(v) == t: (v, t, mask)."""
  for m, c in p.terms:
    if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
      continue
    a = m[0][0]
    if a.kind != 'app' or len(a.data) != 2:
      continue
    l = Ctx.rank_of.get(a.data[0])
    v = a.data[1].single()
    if l is None or v not in vs or len(l.bvs) != 1 or \
        l.sizes()[0].key != v.data[1].key:
      continue
    rest = add(p, Poly({m: -c}))
    if v in rest.vars:
      continue
    t = scale(rest, -1 / c)
    if ge0(t):
      return v, t, l
  return None


def _quot_of(p, v):
  """k when v occurs in p through v // k (a constant k)."""
  for m, c in p.terms:
    for a, e in m:
      if a.kind == 'slc' and a.data[0].single() is v:
        return 2 ** a.data[1] if a.data[1] else 2 ** a.data[2]
      if a.kind == 'div' and a.data[0].single() is v:
        k = a.data[1].const()
        if k is not None and k > 1:
          return int(k)
  return None


def _exact(s, k):
  """s / k when every coefficient divides."""
  if all((c / k).denominator == 1 for m, c in s.terms):
    return scale(s, Fraction(1, k))
  return None


def _mask_of_size(s):
  a = s.single()
  if a is None:
    return None
  if a.kind == 'cnt':
    return a.data[0]
  return Ctx.sizes.get(a.key)


def _has_sel_of(p, l, v):
  return contains(p, atom('sel', 0, l, P(v)))


def _solve_var(p, v):
  co = None
  rest = {}
  for m, c in p.terms:
    if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
      co = c
    else:
      if any(v in a.vars for a, e in m):
        return None
      rest[m] = c
  if co is None or co not in (1, -1):
    return None
  return scale(Poly(rest), -1 / co)


def _solve_radix(p, vs):
  lin = {}
  rest = {}
  vset = set(vs)
  for m, c in p.terms:
    if len(m) == 1 and m[0][0] in vset and m[0][1] == 1:
      lin[m[0][0]] = c
    elif any(a.vars & vset for a, e in m):
      return None
    else:
      rest[m] = c
  if len(lin) != 2:
    return None
  for w, v in (tuple(lin), tuple(lin)[::-1]):
    if abs(lin[w]) != 1:
      continue
    s = lin[w]
    c = lin[v] / s
    size = w.data[1].const()
    if c > 1 and size == c and c.denominator == 1:
      t = scale(Poly(rest), -1 / s)
      tv = Div(t, P(c))
      return (v, tv), (w, t - tv * P(c))
  return None


def _canon_sum(vs, mono):
  body = Poly({mono: Fraction(1)})
  groups = {}
  for v in vs:
    groups.setdefault(v.data[1].key, []).append(v)
  keys = sorted(groups)
  orders = [[]]
  total = 1
  for k in keys:
    g = groups[k]
    ps = list(permutations(g)) if len(g) <= 3 else [tuple(g)]
    orders = [o + list(p) for o in orders for p in ps]
  best = None
  for o in orders:
    base = body.level
    for v in o:
      base = max(base, v.data[1].level)
    bvs, mp = [], {}
    for j, v in enumerate(o):
      bv = atom('bv', base + 1 + j, v.data[1])
      bvs.append(bv)
      mp[v] = P(bv)
    b = _rename(body, mp)
    if best is None or b.key < best[1].key:
      best = (bvs, b)
  isint = all(a.isint and e > 0 for a, e in mono)
  bvs, b = best
  if len(b.terms) == 1 and b.terms[0][1] == 1:
    return P(atom('sum', *bvs, b, isint=isint))
  # renaming flipped the sign form of a bracket: distribute again
  if _canon_depth[0] > 3:
    return addn([scale(P(atom('sum', *bvs, Poly({m: Fraction(1)}),
                              isint=all(a.isint and e > 0 for a, e in m))), c)
                 for m, c in b.terms])
  _canon_depth[0] += 1
  try:
    fr, mp = [], {}
    for bv in bvs:
      f = fresh(subst(bv.data[1], mp))
      mp[bv] = P(f)
      fr.append(f)
    return mk_sum(fr, subst(b, mp))
  finally:
    _canon_depth[0] -= 1


_canon_depth = [0]


def _rename(p, mp):
  return subst(p, mp)


# ---------------------------------------------------------------- app
def App(name, *args):
  args = [P(a) for a in args]
  return shannon(args, lambda *a: _app(name, a)) if args else _app(name, ())


def _app(name, args):
  f = Ctx.fns.get(name)
  if f is not None and f.rewrite is not None:
    r = f.rewrite(*args)
    if r is not None:
      return r
  return P(atom('app', name, *args, isint=(f is not None and f.sort == 'i')))


def declare(name, sort, lo=None, hi=None, rewrite=None, ev=None):
  Ctx.fns[name] = Fn(name, sort, lo, hi, rewrite, ev)





def _over(l):
  """(m, m2) if the one-dimensional mask l runs over the positions selected by m
  and looks at nothing but the selected position: m2 is the same choice made on
  the domain of m.  None otherwise."""
  k = l.key
  if k not in _over_memo:
    _over_memo[k] = None       # (a recursive request gets the plain form)
    _over_memo[k] = _over_of(l)
  return _over_memo[k]


def _over_of(l):
  if len(l.bvs) != 1 or l.body.const() is not None:
    return None
  b = l.bvs[0]
  bk, m = P(b).key, None
  sels, seen, todo = [], set(), [l.body]
  while todo:
    x = todo.pop()
    if isinstance(x, Atom):
      if x.kind == 'sel' and x.data[2].key == bk:
        if m is not None and x.data[1].key != m.key:
          return None
        m = x.data[1]
        sels.append(x)
        continue
      nxt = [d for d in x.data if isinstance(d, (Atom, Poly, Lam))]
    elif isinstance(x, Lam):
      nxt = [x.body]
    else:
      nxt = [a for mono, c in x.terms for a, e in mono]
    for y in nxt:
      if y.key not in seen:
        seen.add(y.key)
        todo.append(y)
  if m is None or contains_lam(m, b) or mk_cnt(m).key != b.data[1].key:
    return None
  vs = [fresh(s) for s in m.sizes()]
  body = subst(l.body, {a: P(vs[a.data[0]]) for a in sels})
  if contains(body, b):
    return None
  ps = [P(v) for v in vs]
  return m, bind(vs, mul(m(*ps), body))


def contains_lam(l, a):
  return contains(l.body, a) or any(contains(s, a) for s in l.sizes())


def mk_rank(l, args):
  if len(l.bvs) == 1 and l.body.const() == 1:
    return P(args[0])
  o = _over(l)
  if o is not None:
    m, m2 = o
    return mk_rank(m2, [mk_sel(j, m, args[0]) for j in range(len(m.bvs))])
  reg = Ctx.masks.get(l.key)
  if reg is not None:
    return App(reg, *args)
  return shannon([P(a) for a in args],
                 lambda *a: P(atom('rank', l, *a)))


def _prefix(l):
  """c such that the one-dimensional mask selects exactly the positions below c
  (0 <= c <= size); None if the mask has another form."""
  if len(l.bvs) != 1:
    return None
  b, n = P(l.bvs[0]), l.bvs[0].data[1]
  for c in (1,):
    if (l.body - Ge(P(c - 1) - b)).const() == 0 or (l.body - Eq(b - (c - 1))).const() == 0:
      if ge0(n - c):
        return c
  return None


def mk_sel(j, l, e):
  if len(l.bvs) == 1 and l.body.const() == 1:
    return P(e)
  if _prefix(l) is not None:
    return P(e)
  o = _over(l)
  if o is not None:
    m, m2 = o
    return mk_rank(m, [mk_sel(k, m2, e) for k in range(len(m.bvs))])
  return shannon([P(e)], lambda x: _sel(j, l, x))


def _sel(j, l, e):
  s = e.single()
  if s is not None:
    if s.kind == 'rank' and s.data[0].key == l.key:
      return s.data[1 + j]
  return P(atom('sel', j, l, e))


def mk_cnt(l):
  reg = Ctx.masks.get(l.key)
  if reg is not None:
    return Ctx.mask_size[l.key]
  c = l.body.const()
  if c is not None:
    if c == 0:
      return ZERO
    r = ONE
    for s in l.sizes():
      r = r * s
    return r
  c = _prefix(l)
  if c is not None:
    return P(c)
  o = _over(l)
  if o is not None:
    return mk_cnt(o[1])
  return P(atom('cnt', l))


Ctx.mask_size = {}


def register_mask(l, rankfn, size):
  Ctx.masks[l.key] = rankfn
  Ctx.mask_size[l.key] = size
  if size.single() is not None:
    Ctx.sizes[size.single().key] = l
  Ctx.rank_of[rankfn] = l


# ------------------------------------------------------- integer division
def Div(p, q):
  """floor(p / q)"""
  p, q = P(p), P(q)
  return shannon([p, q], _div)


def _div(p, q):
  c = q.const()
  if c is not None and c.denominator == 1 and c != 0:
    if c < 0:
      return _div(-p, P(-c))
    c = int(c)
    if c == 1 and p.isint:
      return p
    if not p.isint:
      return Floor(scale(p, Fraction(1, c)))
    quo = {m: k / c for m, k in p.terms if k % c == 0}
    rest = {m: k for m, k in p.terms if k % c != 0}
    k0 = rest.get((), Fraction(0))
    if k0:
      r = k0 % c
      qq = (k0 - r) / c
      if qq:
        quo[()] = quo.get((), 0) + qq
        if not quo[()]:
          quo.pop(())
      if r:
        rest[()] = r
      else:
        rest.pop(())
    quo, rest = Poly(quo), Poly(rest)
    if not rest.terms:
      return quo
    lo, hi = nrange(rest)
    if lo >= 0 and hi < c:
      return quo
    if lo >= -c and hi < 0:
      return quo - 1
    if not rest.vars or True:
      if ge0(rest) and ge0(c - 1 - rest):
        return quo
    # gcd reduction
    g = 0
    for m, k in rest.terms:
      if m != ():
        g = math.gcd(g, int(k))
    g = math.gcd(g, c)
    if g > 1:
      k0 = rest.cterm()
      nr = Poly({m: k / g for m, k in rest.terms if m != ()}) + \
          math.floor(k0 / g)
      return quo + _div(nr, P(c // g))
    if c & (c - 1) == 0:
      b = bits(rest)
      if b is not None:
        return quo + from_bits(b[(c.bit_length() - 1):])
    s = rest.single()
    if s is not None and s.kind == 'div' and s.data[1].const() is not None:
      return quo + _div(s.data[0], P(s.data[1].const() * c))
    return quo + P(atom('div', rest, P(c)))
  # symbolic divisor
  if p.isint and q.isint:
    if ge0(p) and ge0(q - 1 - p):
      return ZERO
    if len(q.terms) == 1:
      qm, qc = q.terms[0]
      quo, rest = {}, {}
      for m, k in p.terms:
        d = dict(m)
        ok = k % qc == 0
        for a, e in qm:
          if d.get(a, 0) < e:
            ok = False
        if ok:
          for a, e in qm:
            d[a] -= e
            if not d[a]:
              d.pop(a)
          quo[tuple(sorted(d.items(), key=lambda t: t[0].key))] = k / qc
        else:
          rest[m] = k
      if quo:
        return Poly(quo) + _div(Poly(rest), q)
    if p == q:
      return ONE
    s = p.single()
    if s is not None and s.kind == 'div' and ge0(q) and ge0(s.data[1]):
      return _div(s.data[0], mul(s.data[1], q))
    return P(atom('div', p, q))
  return Floor(mul(p, inv(q)))


def Mod(p, q):
  p, q = P(p), P(q)
  c = q.const()
  if c is not None and p.isint and c.denominator == 1 and c > 0 and \
      int(c) & (int(c) - 1) == 0:
    return shannon([p], lambda x: _mod2(x, int(c)))
  return p - mul(q, Div(p, q))


def _mod2(p, c):
  rest = {m: k % c for m, k in p.terms if k % c != 0}
  rest = Poly(rest)
  lo, hi = nrange(rest)
  if lo >= 0 and hi < c:
    return rest
  if ge0(rest) and ge0(c - 1 - rest):
    return rest
  b = bits(p)
  if b is not None:
    return from_bits(b[:c.bit_length() - 1])
  b = bits(rest)
  if b is not None:
    return from_bits(b[:c.bit_length() - 1])
  return rest - scale(_div(rest, P(c)), Fraction(c))


def recombine(p):
  """c*x{0:s} + c*2^s*x{s:} = c*x."""
  p = P(p)
  for m, c in p.terms:
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'slc':
      src, s, n = m[0][0].data
      if s == 0 and n is not None:
        hi = Shr(src, n).single()
        if hi is None:
          continue
        for m2, c2 in p.terms:
          if c2 == c * 2 ** n and len(m2) == 1 and m2[0] == (hi, 1):
            return recombine(p - Poly({m: c}) - Poly({m2: c2}) + scale(src, c))
  return p


def TruncDiv(p, q):
  p, q = P(p), P(q)
  if ge0(p):
    return Div(p, q)
  if ge0(-p):
    return -Div(-p, q)
  return Ite(Ge(p), Div(p, q), -Div(-p, q))


def Floor(p):
  p = P(p)
  return shannon([p], _floor)


def _floor(p):
  if p.isint:
    return p
  c = p.const()
  if c is not None:
    return P(math.floor(c))
  iq, rest = {}, {}
  for m, k in p.terms:
    if k.denominator == 1 and all(a.isint and e > 0 for a, e in m):
      iq[m] = k
    else:
      rest[m] = k
  k0 = rest.get((), None)
  if k0 is not None:
    f = math.floor(k0)
    if f:
      iq[()] = iq.get((), Fraction(0)) + f
      rest[()] = k0 - f
      if not iq[()]:
        iq.pop(())
  rp = Poly(rest)
  lo, hi = nrange(rp)
  if lo >= 0 and hi < 1:
    return Poly(iq)
  if lo > -INF and hi < INF and hi < math.floor(lo) + 2:
    return Poly(iq) + math.floor(lo) + Ge(rp - (math.floor(lo) + 1))
  # rational combination of integer atoms -> floor division
  if all(all(a.isint and e > 0 for a, e in m) for m, k in rp.terms):
    den = 1
    for m, k in rp.terms:
      den = den * k.denominator // math.gcd(den, k.denominator)
    return Poly(iq) + Div(scale(rp, Fraction(den)), P(den))
  return Poly(iq) + P(atom('floor', rp))


def Trunc(p):
  p = P(p)
  return shannon([p], _trunc)


def _trunc(p):
  if p.isint:
    return p
  c = p.const()
  if c is not None:
    return P(math.trunc(c))
  if ge0(p):
    return _floor(p)
  if ge0(-p):
    return -_floor(-p)
  if _int_plus_frac(p) is not None:
    return Ite(Ge(p), _floor(p), P(atom('trunc', p)))
  return P(atom('trunc', p))


# ------------------------------------------------------------------- bits
W = 64


def bits(p, depth=0):
  """64 entries 0/1/(poly source, bit); None when unknown."""
  c = p.const()
  if c is not None:
    if c.denominator != 1:
      return None
    v = int(c)
    return [(v >> i) & 1 for i in range(W)]
  if not p.isint or depth > 6:
    return None
  out = [0] * W
  neg = False
  lead = list(p.terms)
  if len(lead) > 60:
    return None
  for m, k in lead:
    if k.denominator != 1 or k <= 0:
      return _even_bits(p)
    k = int(k)
    if k & (k - 1):
      if m == ():
        b = [(k >> i) & 1 for i in range(W)]
      else:
        return _even_bits(p)
    elif m == ():
      b = [(k >> i) & 1 for i in range(W)]
    else:
      if len(m) == 1 and m[0][1] == 1:
        ab = _atom_bits(m[0][0], depth)
      else:
        ab = _src_bits(Poly({m: Fraction(1)}))
      if ab is None:
        return None
      s = k.bit_length() - 1
      b = [0] * s + ab[:W - s]
    for i in range(W):
      if b[i] != 0:
        if out[i] != 0:
          return _even_bits(p)
        out[i] = b[i]
  return out


def _even_bits(p):
  """Bits of a term whose coefficients share a power of two."""
  g, _ = _gcd_frac([c for m, c in p.terms])
  if _ != 1 or g < 2 or g & 1:
    return _src_bits(p)
  g = g & -g
  sb = _src_bits(scale(p, Fraction(1, g)))
  s = g.bit_length() - 1
  return None if sb is None else ([0] * s + sb)[:W]


def _src_bits(p):
  if not p.isint:
    return None
  lo, hi = nrange(p)
  n = W
  if lo >= 0 and hi < INF:
    n = min(W, int(hi).bit_length())
  elif lo >= 0:
    n = W - 1
  out = [(p, i) for i in range(n)] + [0] * (W - n)
  a = p.single()
  if a is not None and a.kind == 'app':
    f = Ctx.fns.get(a.data[0])
    if f is not None and f.gap is not None:
      for i in range(*f.gap):
        out[i] = 0
  return out


def _atom_bits(a, depth):
  if a.kind == 'slc':
    src, s, n = a.data
    sb = _src_bits(src)
    if sb is None:
      return None
    if n is None:
      r = sb[s:] + [sb[-1]] * s
    else:
      r = sb[s:s + n] + [0] * (W - n)
    return (r + [0] * W)[:W]
  if a.kind == 'tab' and len(a.data) == 2:
    t = a.data[0]
    lin = _table_linear(t)
    if lin is not None:
      ib = bits(a.data[1], depth + 1)
      if ib is None:
        return _src_bits(P(a))
      nb = len(t.vals).bit_length() - 1
      if any(x != 0 for x in ib[nb:]):
        return _src_bits(P(a))
      out = [0] * W
      for j, src in lin.items():
        out[j] = ib[src]
      return out
  return _src_bits(P(a))


_lin_memo = {}


def _table_linear(t):
  r = _lin_memo.get(t.key, 0)
  if r != 0:
    return r
  _lin_memo[t.key] = None
  n = len(t.vals)
  if not t.vals or n & (n - 1) or not t.isint or t.vals[0] != 0 or n < 2:
    return None
  out = {}
  basis = []
  for b in range(n.bit_length() - 1):
    v = int(t.vals[1 << b])
    if v < 0:
      return None
    basis.append(v)
    for j in range(v.bit_length()):
      if (v >> j) & 1:
        if j in out:
          return None
        out[j] = b
  for i in range(n):
    v = 0
    for b, bv in enumerate(basis):
      if (i >> b) & 1:
        v |= bv
    if v != int(t.vals[i]):
      return None
  _lin_memo[t.key] = out
  return out


def from_bits(b):
  """Canonical polynomial of a bit vector (maximal runs of source slices)."""
  b = list(b)
  out = []
  i = 0
  n = len(b)
  while i < n:
    e = b[i]
    if e == 0:
      i += 1
      continue
    if e == 1:
      out.append(P(1 << i))
      i += 1
      continue
    src, s = e
    j = i + 1
    sb = _src_bits(src)
    while j < n and s + (j - i) < W and b[j] == sb[s + (j - i)]:
      j += 1
    while b[j - 1] == 0:
      j -= 1
    ln = j - i
    out.append(scale(_mk_slc(src, s, ln), Fraction(1 << i)))
    # sign extension copies beyond the top bit of an unbounded source
    if s + ln == W:
      while j < n and isinstance(b[j], tuple) and b[j][0] == src and \
          b[j][1] == W - 1:
        j += 1
    i = j
  return addn(out)


def _mk_slc(src, s, ln):
  sb = _src_bits(src)
  width = max((i for i, e in enumerate(sb) if e != 0), default=-1) + 1
  if s == 0 and ln >= width:
    return src
  if s + ln >= width:
    return P(atom('slc', src, s, None))
  return P(atom('slc', src, s, ln))


def mk_slc(src, s, n):
  """Rebuild after substitution: floor(src / 2^s) mod 2^n."""
  r = Div(src, P(1 << s)) if s else src
  if n is not None:
    r = Mod(r, P(1 << n))
  return r


def BitOr(a, b):
  return shannon([P(a), P(b)], lambda x, y: _bitop('or', x, y))


def BitAnd(a, b):
  return shannon([P(a), P(b)], lambda x, y: _bitop('and', x, y))


def BitXor(a, b):
  return shannon([P(a), P(b)], lambda x, y: _bitop('xor', x, y))


def _bitop(op, a, b):
  if op in ('or', 'xor') and not a.terms:
    return b
  if op in ('or', 'xor') and not b.terms:
    return a
  if op == 'and' and (not a.terms or not b.terms):
    return ZERO
  # x & (2^n - 1)
  if op == 'and':
    for x, y in ((a, b), (b, a)):
      c = y.const()
      if c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
        return _mod2(x, int(c) + 1)
  ba, bb = bits(a), bits(b)
  if ba is not None and bb is not None:
    out = []
    arith = True
    for x, y in zip(ba, bb):
      if op == 'or':
        r = y if x == 0 else (x if y == 0 or x == y else
                              (1 if 1 in (x, y) else None))
      elif op == 'xor':
        r = y if x == 0 else (x if y == 0 else (0 if x == y else None))
      else:
        r = 0 if x == 0 or y == 0 else (x if y == 1 or x == y else
                                        (y if x == 1 else None))
      out.append(r)
    if None not in out:
      if op in ('or', 'xor') and all(x == 0 or y == 0
                                     for x, y in zip(ba, bb)):
        s = add(a, b)
        if not has_kind(s, 'slc') and not has_kind(s, 'tab'):
          return s
      return from_bits(out)
  if a.key > b.key:
    a, b = b, a
  return P(atom('bit' + op, a, b))


def Shl(a, n):
  n = P(n)
  c = n.const()
  if c is not None:
    return scale(P(a), Fraction(2) ** int(c))
  return mul(P(a), App('pow2', n))


def Shr(a, n):
  c = P(n).const()
  if c is not None:
    return Div(P(a), P(1 << int(c)))
  return P(atom('shr', P(a), P(n)))


# ------------------------------------------------------ other functions
def Tab(t, *idx):
  idx = [P(i) for i in idx]
  return shannon(idx, lambda *a: _tab(t, a))


def _tab(t, idx):
  if not t.vals:
    return P(0)     # no entry can be read
  cs = [i.const() for i in idx]
  if all(c is not None for c in cs):
    o = 0
    for s, c in zip(t.shape, cs):
      o = o * s + int(c) % s
    return P(t.vals[o])
  if len(set(t.vals)) == 1:
    return P(t.vals[0])
  # partially constant
  if any(c is not None for c in cs):
    keep = [k for k, c in enumerate(cs) if c is None]
    shape = [t.shape[k] for k in keep]
    vals = []
    tot = 1
    for s in shape:
      tot *= s
    for f in range(tot):
      r = f
      sub = {}
      for k in reversed(keep):
        sub[k] = r % t.shape[k]
        r //= t.shape[k]
      o = 0
      for k, s in enumerate(t.shape):
        o = o * s + (int(cs[k]) % s if cs[k] is not None else sub[k])
      vals.append(t.vals[o])
    return _tab(Table.make(shape, vals), [idx[k] for k in keep])
  # affine tables
  if len(t.shape) == 1:
    n = t.shape[0]
    if n >= 3:
      d = t.vals[1] - t.vals[0]
      if all(t.vals[i] == t.vals[0] + i * d for i in range(n)):
        return scale(idx[0], d) + P(t.vals[0])
    elif n == 2:
      return scale(idx[0], t.vals[1] - t.vals[0]) + P(t.vals[0])
    if t.isint and _table_linear(t) is not None:
      b = _atom_bits(atom('tab', t, idx[0]), 0)
      if b is not None and not any(isinstance(e, tuple) and has_kind(
              e[0], 'tab') for e in b):
        return from_bits(b)
  return P(atom('tab', t, *idx, isint=t.isint))


UN = {}


def Fun(name, *args):
  args = [P(a) for a in args]
  return shannon(args, lambda *a: _fun(name, a))


def _fun(name, a):
  cs = [x.const() for x in a]
  if name == 'abs':
    if cs[0] is not None:
      return P(abs(cs[0]))
    if ge0(a[0]):
      return a[0]
    if ge0(-a[0]):
      return -a[0]
    p = a[0]
    if _split_lead(p) is not None and _split_lead(p) < 0:
      p = -p
    lead = abs(_split_lead(p))
    if len(p.terms) == 1:
      return scale(P(atom('abs', scale(p, 1 / lead), isint=p.isint and
                          lead.denominator == 1)), lead)
    return P(atom('abs', p, isint=p.isint))
  if name == 'sqrt':
    if cs[0] is not None:
      for q in (cs[0],):
        n, d = math.isqrt(max(q.numerator, 0)), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
          return P(Fraction(n, d))
  if name == 'exp' and cs[0] == 0:
    return ONE
  if name in ('max2', 'min2'):
    x, y = a
    if ge0(x - y):
      return x if name == 'max2' else y
    if ge0(y - x):
      return y if name == 'max2' else x
    return Ite(Ge(x - y), x, y) if name == 'max2' else Ite(Ge(x - y), y, x)
  if name == 'sin' and cs[0] == 0:
    return ZERO
  if name == 'cos' and cs[0] == 0:
    return ONE
  if name == 'pow' and cs[1] is not None and cs[1].denominator == 1:
    return powp(a[0], int(cs[1]))
  if name == 'pow' and cs[1] == Fraction(1, 2):
    return _fun('sqrt', (a[0],))
  return P(atom(name, *a, isint=False))


def Red(op, l):
  """Reduction atom over a one-variable lam ('max','min','argmax',...)."""
  c = l.body.const()
  if c is not None and op in ('max', 'min'):
    return P(c)
  if l.bvs[0] not in _bvs_in(l.body) and op in ('max', 'min'):
    return l.body
  s = l.body.single()
  if op == 'max' and s is not None and s.kind in ('uinv', 'cinv') and \
      len(l.bvs) == 1 and s.data[1].key == P(l.bvs[0]).key and \
      s.data[0].sizes()[0].key == l.bvs[0].data[1].key:
    # the inverse index of unique() is onto [0, num)
    return P(atom('unum' if s.kind == 'uinv' else 'cnum', s.data[0])) - 1
  if op in ('argmax', 'argmin') and len(l.bvs) == 1 and l.bvs[0].data[1].const() == 2:
    x, y = [subst(l.body, {l.bvs[0]: P(i)}) for i in (0, 1)]
    return 1 - Ge(x - y) if op == 'argmax' else 1 - Ge(y - x)
  if op == 'max' and s is not None and s is l.bvs[0]:
    return l.bvs[0].data[1] - 1
  return P(atom('red', op, l, isint=(op.startswith('arg') or l.body.isint)))


def _bvs_in(p):
  out = set()

  def go(x):
    if isinstance(x, Atom):
      if x.kind == 'bv':
        out.add(x)
      for d in x.data:
        if isinstance(d, (Poly, Lam, Atom)):
          go(d)
    elif isinstance(x, Lam):
      go(x.body)
    else:
      for m, c in x.terms:
        for a, e in m:
          go(a)
  go(p)
  return out


def mk_lb(l, q):
  return shannon([P(q)], lambda x: _lb(l, x))


def _lb(l, q):
  """First position of l whose value is not below q (its length if none)."""
  if len(l.bvs) == 1 and any(l.key == s[0].key for s in Ctx.searched):
    j = _preimage(l.body, l.bvs[0], q)
    if j is not None and ge0(j):
      n = next(s[2] for s in Ctx.searched if s[0].key == l.key)
      if ge0(P(n) - 1 - j):
        return j
  return P(atom('lb', l, q))


def _preimage(p, v, q):
  """j with p[v := j] == q, for a chain of injective functions (or None)."""
  if p.key == P(v).key:
    return q
  a, b = p.single(), q.single()
  if a is None or b is None or a.kind != b.kind:
    return None
  if a.kind == 'app' and a.data[0] == b.data[0] and len(a.data) == 2 == len(b.data):
    return _preimage(a.data[1], v, b.data[1])
  if a.kind == 'sel' and a.data[0] == b.data[0] and a.data[1].key == b.data[1].key:
    return _preimage(a.data[-1], v, b.data[-1])
  return None


def compact(l):
  """(l', expand, shrink): the same order of values without a gap between two digit
  groups, value = expand(value'); None if there is no gap."""
  cs = sorted(set(c for m, c in l.body.terms if c > 1), reverse=True)
  for c in cs:
    s = int(c).bit_length() - 1
    if c != 1 << s:
      continue
    hi = Poly({m: k / c for m, k in l.body.terms if k % c == 0})
    lo = Poly({m: k for m, k in l.body.terms if k % c != 0})
    a, b = _case_range(lo, 6)
    if not hi.terms or a < 0 or b >= c or not ge0(hi):
      continue
    r = int(b).bit_length()
    if r >= s:
      return None
    return (Lam(l.bvs, scale(hi, 2 ** r) + lo),
            lambda v: scale(mk_slc(v, r, None), c) + mk_slc(v, 0, r),
            lambda v: scale(mk_slc(v, s, None), 2 ** r) + mk_slc(v, 0, r))
  return None


def join(p):
  """Merges adjacent digit groups with matching weights."""
  for m, c in p.terms:
    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'slc' and m[0][0].data[2] is not None:
      x, s, n = m[0][0].data
      for m2, c2 in p.terms:
        if c2 == c * 2 ** n and len(m2) == 1 and m2[0][1] == 1 and m2[0][0].kind == 'slc':
          y, s2, n2 = m2[0][0].data
          if s2 == s + n and y.key == x.key:
            return join(p - scale(P(m[0][0]), c) - scale(P(m2[0][0]), c2)
                        + scale(mk_slc(x, s, None if n2 is None else n + n2), c))
  return p


def distinct(l):
  """Distinct values of a list: (number, j -> j-th value, i -> position of the
  i-th entry of the list among them)."""
  src, l = l, flat_unique(l) or l
  c = compact(l)
  flat = src is not l
  l, expand, shrink = c if c else (l, lambda v: v, lambda v: v)

  def inv(i):
    return mk_u('upos', l, shrink(src(i))) if flat else mk_u('uinv', l, i)
  n = P(0) if any(s.const() == 0 for s in src.sizes()) else P(atom('unum', l))
  return n, lambda j: expand(mk_u('uval', l, j)), inv


def atoms_of(x):
  """Every atom occurring in a term."""
  if isinstance(x, Atom):
    yield x
    for d in x.data:
      if isinstance(d, (Atom, Poly, Lam)):
        yield from atoms_of(d)
  elif isinstance(x, Lam):
    yield from atoms_of(x.body)
  else:
    for m, c in x.terms:
      for b, e in m:
        yield from atoms_of(b)


def flat_unique(l):
  """For the image of the distinct values of L under f: (lam of f over L, f(L))
  with the same set of values, else None."""
  if len(l.bvs) != 1:
    return None
  v = l.bvs[0]
  n = v.data[1].single()
  if n is None or n.kind != 'unum':
    return None
  L = n.data[0]
  u = next((a for a in atoms_of(l.body) if a.kind == 'uval' and a.data[0].key == L.key
            and a.data[1].key == P(v).key), None)
  if u is None:
    return None
  w = fresh(L.sizes()[0])
  body = subst(l.body, {u: L(P(w))})
  if contains(body, v):
    return None
  return bind([w], body)


def mk_u(kind, l, x):
  return shannon([P(x)], lambda y: _u(kind, l, y))


def _u(kind, l, x):
  if kind == 'uval':
    s = x.single()
    if s is not None and s.kind == 'uinv' and s.data[0].key == l.key:
      return l(s.data[1])
    if s is not None and s.kind == 'upos' and s.data[0].key == l.key:
      return s.data[1]
    return P(atom('uval', l, x, isint=l.body.isint))
  return P(atom(kind, l, x))


_REBUILD = {
    'app': lambda n, *a: App(n, *a),
    'ge': lambda p: Ge(p),
    'gt': lambda p: Gt(p),
    'eq': lambda p: Eq(p),
    'sel': lambda j, l, e: mk_sel(j, l, e),
    'rank': lambda l, *a: mk_rank(l, a),
    'cnt': lambda l: mk_cnt(l),
    'slc': mk_slc,
    'div': lambda p, q: Div(p, q),
    'floor': lambda p: Floor(p),
    'trunc': lambda p: Trunc(p),
    'tab': lambda t, *i: Tab(t, *i),
    'bitor': BitOr, 'bitand': BitAnd, 'bitxor': BitXor,
    'shr': Shr,
    'grp': lambda p: p,
    'red': lambda op, l: Red(op, l),
    'lb': mk_lb,
    'uval': lambda l, x: mk_u('uval', l, x),
    'uinv': lambda l, x: mk_u('uinv', l, x),
    'upos': lambda l, x: mk_u('upos', l, x),
}
for _n in ('abs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'pow', 'erf', 'tanh',
           'sigmoid'):
  _REBUILD[_n] = (lambda n: (lambda *a: Fun(n, *a)))(_n)


def absorb(p):
  """Drops brackets that a sum in the same term implies for every summand."""
  out = []
  for m, c in P(p).terms:
    keep = []
    for a, e in m:
      if a.kind == 'ge' and e == 1 and any(_implies(b, a) for b, _ in m if b.kind == 'sum'):
        continue
      keep.append((a, e))
    out.append(Poly({tuple(keep): c}))
  return addn(out)


def _implies(s, g):
  body = s.data[-1]
  vs = s.data[:-1]
  fv = {b: P(fresh(b.data[1])) for b in vs}
  for m, c in body.terms:
    for a, e in m:
      if a.kind == 'ge' and ge0(g.data[0] - subst(a.data[0], fv)):
        break
    else:
      return False
  return True


# ---------------------------------------------------------------- printing
def show_atom(a, d=0):
  k, x = a.kind, a.data
  if d > 7:
    return '…'
  s = lambda p: show(p, d + 1)
  if k == 'var':
    return x[0]
  if k == 'bv':
    return '#%d' % x[0]
  if k == 'app':
    return x[0] + ('(%s)' % ','.join(s(p) for p in x[1:]) if len(x) > 1 else '')
  if k == 'ge':
    return '[%s>=0]' % s(x[0])
  if k == 'gt':
    return '[%s>0]' % s(x[0])
  if k == 'eq':
    return '[%s==0]' % s(x[0])
  if k == 'sum':
    return 'Σ%s(%s)' % (','.join('%s<%s' % (show_atom(b), s(b.data[1]))
                                 for b in x[:-1]), s(x[-1]))
  if k == 'slc':
    return '%s{%d:%s}' % (s(x[0]), x[1], '' if x[2] is None else x[1] + x[2])
  if k == 'tab':
    return 'tab%s[%s]' % (x[0].key[:4], ','.join(s(p) for p in x[1:]))
  args = []
  for y in x:
    if isinstance(y, Poly):
      args.append(s(y))
    elif isinstance(y, Lam):
      args.append('λ%s' % show(y.body, d + 1))
    else:
      args.append(str(y))
  return '%s(%s)' % (k, ','.join(args))


def show(p, d=0):
  if not p.terms:
    return '0'
  out = []
  for m, c in p.terms[:12]:
    f = '·'.join(show_atom(a, d) + ('^%d' % e if e != 1 else '') for a, e in m)
    if m == ():
      out.append(str(c))
    elif c == 1:
      out.append(f)
    elif c == -1:
      out.append('-' + f)
    else:
      out.append('%s·%s' % (c, f))
  if len(p.terms) > 12:
    out.append('…(%d terms)' % len(p.terms))
  return ' + '.join(out).replace('+ -', '- ')
