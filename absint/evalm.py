"""Interpretation of normal forms in a finite algebra.

Used only on *normal forms extracted by the abstract interpreter* (never on the
program): two normal forms that differ syntactically are separated by
interpreting both over small structures ("random interpretation" in the sense
of Gulwani & Necula).  A separated pair is a definite violation with a witness;
an unseparated pair is reported as undecided.
"""
import math
from fractions import Fraction
from . import terms as tm


class Undef(Exception):
  pass


class Model:
  """fns: name -> python callable; seed for hashed uninterpreted functions."""

  def __init__(self, fns, seed=0):
    self.fns = dict(fns)
    self.seed = seed
    self.memo = {}
    self.lam_memo = {}
    self.budget = 3_000_000
    self.mag = 0.0        # largest rounded intermediate result


def hreal(seed, *parts):
  import hashlib
  h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=8).digest()
  v = int.from_bytes(h, 'big')
  # dyadic rationals in [-2, 2)
  return Fraction((v % 4096) - 2048, 1024)


def ev(p, env, M):
  tot = big = 0
  infc = None
  for m, c in p.terms:
    M.budget -= 1
    if M.budget < 0:
      raise Undef('budget')
    v = 1
    order = sorted(m, key=lambda t: t[0].kind not in ('ge', 'gt', 'eq'))
    zero = False
    isinf = False
    for a, e in order:
      if a.kind == 'inf' and e == 1:
        isinf = True
        continue
      x = eva(a, env, M)
      if e == 1:
        v = v * x
      else:
        if e < 0 and x == 0:
          raise Undef('division by zero')
        if isinstance(x, int) and e < 0:
          x = Fraction(x)
        v = v * x ** e
      if x == 0 and a.kind in ('ge', 'gt', 'eq'):
        zero = True
        break
    if zero:
      continue
    if isinf:
      infc = (infc or 0) + v * c
      continue
    if c.denominator == 1:
      v = v * int(c)
    elif isinstance(v, float):
      v = v * float(c)
    else:
      v = v * c
    tot = tot + v
    v = abs(v)
    if v > big:
      big = v
  if isinstance(tot, float) and M.mag < big < math.inf:
    M.mag = float(big)
  if infc is not None and infc != 0:
    return math.inf if infc > 0 else -math.inf
  if isinstance(tot, Fraction) and tot.denominator == 1:
    tot = int(tot)
  return tot


def eva(a, env, M):
  k = a.kind
  if k == 'var' or k == 'bv':
    try:
      return env[a]
    except KeyError:
      raise Undef('free %r' % a)
  mk = None
  if not a.vars and a.level == 0:
    mk = a.key
    if mk in M.memo:
      return M.memo[mk]
  else:
    if k not in ('ge', 'gt', 'eq', 'app'):
      rel = _rel(a)
      try:
        mk = (a.key,) + tuple(env[v] for v in rel)
      except KeyError as ex:
        raise Undef('free')
      if mk in M.memo:
        return M.memo[mk]
  r = _eva(a, k, a.data, env, M)
  if mk is not None:
    M.memo[mk] = r
  return r


_rel_memo = {}


def _rel(a):
  r = _rel_memo.get(a.key)
  if r is None:
    s = set()
    _free(a, s)
    r = tuple(sorted(s, key=lambda x: x.key))
    _rel_memo[a.key] = r
  return r


_free_memo = {}


def _free(x, out):
  """Adds the free variables of a term to the set."""
  if isinstance(x, tm.Atom) and x.kind in ('var', 'bv'):
    out.add(x)
    return
  if isinstance(x, tm.Poly):
    for m, c in x.terms:
      for a, e in m:
        _free(a, out)
    return
  k = (isinstance(x, tm.Lam), x.key)
  r = _free_memo.get(k)
  if r is None:
    s = set()
    if isinstance(x, tm.Lam):
      _free(x.body, s)
      for b in x.bvs:
        _free(b.data[1], s)
      s -= set(x.bvs)
    elif x.kind == 'sum':
      _free(x.data[-1], s)
      for b in x.data[:-1]:
        _free(b.data[1], s)
      s -= set(x.data[:-1])
    else:
      for d in x.data:
        if isinstance(d, (tm.Poly, tm.Lam, tm.Atom)):
          _free(d, s)
    r = _free_memo[k] = frozenset(s)
  out |= r


def tabulate(l, env, M):
  """All values of a lam (nested row-major list) with its sizes."""
  rel = set()
  _free(l, rel)
  key = (l.key,) + tuple((v.key, env[v]) for v in sorted(
      rel, key=lambda x: x.key))
  r = M.lam_memo.get(key)
  if r is not None:
    return r
  sizes = []
  e2 = dict(env)
  for b in l.bvs:
    n = ev(b.data[1], env, M)
    sizes.append(int(n))
  out = []
  tot = 1
  for s in sizes:
    tot *= s
  if tot > 20000:
    raise Undef('too large')
  for f in range(tot):
    r = f
    for b, s in reversed(list(zip(l.bvs, sizes))):
      e2[b] = r % s
      r //= s
    out.append(ev(l.body, e2, M))
  res = (sizes, out)
  M.lam_memo[key] = res
  return res


def _eva(a, k, d, env, M):
  if k == 'app':
    args = [ev(p, env, M) for p in d[1:]]
    f = M.fns.get(d[0])
    if f is not None:
      return f(*args)
    fn = tm.Ctx.fns.get(d[0])
    if fn is not None and fn.ev is not None:
      return fn.ev(M, *args)
    v = hreal(M.seed, d[0], tuple(_num(x) for x in args))
    if fn is not None and fn.sort == 'i':
      v = int(v * 1024)
      if fn.lo is not None and not callable(fn.lo) and not isinstance(fn.lo, tm.Poly):
        lo = fn.lo
        hi = fn.hi if fn.hi is not None and not callable(fn.hi) else lo + 6
        if isinstance(hi, tm.Poly):
          hi = ev(hi, env, M)
        if hi == math.inf:
          hi = lo + 6
        v = lo + v % max(1, int(hi - lo + 1))
    elif fn is not None and fn.lo is not None and not callable(fn.lo):
      hi = fn.hi if fn.hi is not None and not callable(fn.hi) else None
      lo = fn.lo
      if isinstance(hi, tm.Poly):
        hi = ev(hi, env, M)
      if hi is not None and lo > -math.inf and hi < math.inf:
        v = Fraction(lo) + (v + 2) / 4 * Fraction(hi - lo)
      elif lo > -math.inf:
        v = Fraction(lo) + abs(v)
    return v
  if k == 'ge':
    return 1 if ev(d[0], env, M) >= 0 else 0
  if k == 'gt':
    return 1 if ev(d[0], env, M) > 0 else 0
  if k == 'eq':
    return 1 if ev(d[0], env, M) == 0 else 0
  if k == 'sum':
    bvs, body = d[:-1], d[-1]
    tot = 0
    e2 = dict(env)

    def go(i):
      nonlocal tot
      if i == len(bvs):
        M.budget -= 1
        tot = tot + ev(body, e2, M)
        return
      n = int(ev(bvs[i].data[1], e2, M))
      for x in range(n):
        e2[bvs[i]] = x
        go(i + 1)
    go(0)
    return tot
  if k == 'sel':
    j, l, e = d
    sizes, vals = tabulate(l, env, M)
    e = int(ev(e, env, M))
    pos = [i for i, v in enumerate(vals) if v]
    if not (0 <= e < len(pos)):
      raise Undef('sel out of range')
    f = pos[e]
    out = []
    for s in reversed(sizes):
      out.append(f % s)
      f //= s
    return out[::-1][j]
  if k == 'rank':
    l = d[0]
    sizes, vals = tabulate(l, env, M)
    f = 0
    for s, x in zip(sizes, d[1:]):
      f = f * s + int(ev(x, env, M))
    return sum(1 for v in vals[:f] if v)
  if k == 'cnt':
    sizes, vals = tabulate(d[0], env, M)
    return sum(1 for v in vals if v)
  if k in ('slc',):
    v = int(ev(d[0], env, M)) >> d[1]
    if d[2] is not None:
      v &= (1 << d[2]) - 1
    return v
  if k == 'div':
    q = ev(d[1], env, M)
    if q == 0:
      raise Undef('div by zero')
    return math.floor(Fraction(ev(d[0], env, M)) / Fraction(q))
  if k == 'floor':
    return math.floor(ev(d[0], env, M))
  if k == 'trunc':
    return math.trunc(ev(d[0], env, M))
  if k == 'tab':
    t = d[0]
    o = 0
    for s, x in zip(t.shape, d[1:]):
      i = int(ev(x, env, M))
      if not (0 <= i < s):
        raise Undef('table index')
      o = o * s + i
    v = t.vals[o]
    return int(v) if v.denominator == 1 else v
  if k == 'grp':
    return ev(d[0], env, M)
  if k in ('bitor', 'bitand', 'bitxor'):
    x, y = int(ev(d[0], env, M)), int(ev(d[1], env, M))
    return x | y if k == 'bitor' else x & y if k == 'bitand' else x ^ y
  if k == 'shr':
    return int(ev(d[0], env, M)) >> int(ev(d[1], env, M))
  if k == 'inf':
    return math.inf
  if k == 'nan':
    raise Undef('nan')
  if k == 'abs':
    return abs(ev(d[0], env, M))
  if k == 'red':
    op, l = d
    sizes, vals = tabulate(l, env, M)
    if not vals:
      raise Undef('empty reduction')
    if op == 'max':
      return max(vals)
    if op == 'min':
      return min(vals)
    if op == 'argmax':
      return vals.index(max(vals))
    if op == 'argmin':
      return vals.index(min(vals))
    if op == 'any':
      return 1 if any(vals) else 0
    if op == 'all':
      return 1 if all(vals) else 0
    if op == 'prod':
      r = 1
      for v in vals:
        r = r * v
      return r
    raise Undef(op)
  if k == 'lb':
    sizes, vals = tabulate(d[0], env, M)
    q = ev(d[1], env, M)
    # torch semantics: binary search (defined only on sorted input)
    lo, hi = 0, len(vals)
    while lo < hi:
      mid = (lo + hi) // 2
      if vals[mid] < q:
        lo = mid + 1
      else:
        hi = mid
    return lo
  if k == 'ub':
    sizes, vals = tabulate(d[0], env, M)
    q = ev(d[1], env, M)
    lo, hi = 0, len(vals)
    while lo < hi:
      mid = (lo + hi) // 2
      if vals[mid] <= q:
        lo = mid + 1
      else:
        hi = mid
    return lo
  if k == 'upos':
    u = sorted(set(tabulate(d[0], env, M)[1]))
    q = ev(d[1], env, M)
    if q not in u:
      raise Undef('absent value')
    return u.index(q)
  if k in ('unum', 'uval', 'uinv', 'ucnt'):
    sizes, vals = tabulate(d[0], env, M)
    u = sorted(set(vals))
    return _uq(k, u, vals, d, env, M)
  if k in ('cnum', 'cval', 'cinv', 'ccnt'):     # unique_consecutive
    sizes, vals = tabulate(d[0], env, M)
    runs, inv = [], []
    for v in vals:
      if not runs or runs[-1] != v:
        runs.append(v)
      inv.append(len(runs) - 1)
    if k == 'cnum':
      return len(runs)
    x = int(ev(d[1], env, M))
    if k == 'cval':
      if not 0 <= x < len(runs):
        raise Undef('range')
      return runs[x]
    if k == 'cinv':
      if not 0 <= x < len(inv):
        raise Undef('range')
      return inv[x]
    return sum(1 for i in inv if i == x)
  if k == 'sorted' or k == 'argsort':
    sizes, vals = tabulate(d[0], env, M)
    o = sorted(range(len(vals)), key=lambda i: vals[i])
    x = int(ev(d[1], env, M))
    if not 0 <= x < len(o):
      raise Undef('range')
    return vals[o[x]] if k == 'sorted' else o[x]
  if k in _REAL:
    xs = [float(ev(x, env, M)) for x in d]
    try:
      return _REAL[k](*xs)
    except (ValueError, OverflowError, ZeroDivisionError):
      raise Undef(k)
  # anything else: hashed uninterpreted function of its evaluated arguments
  args = []
  for x in d:
    if isinstance(x, tm.Poly):
      args.append(_num(ev(x, env, M)))
    elif isinstance(x, tm.Lam):
      s, v = tabulate(x, env, M)
      args.append((tuple(s), tuple(_num(y) for y in v)))
    elif isinstance(x, tm.Atom):
      args.append(_num(eva(x, env, M)))
    else:
      args.append(repr(x))
  v = hreal(M.seed, k, tuple(args))
  return int(v * 1024) if a.isint else v


def _num(x):
  if isinstance(x, float):
    return float('%.9g' % x)
  f = Fraction(x)
  return int(f) if f.denominator == 1 else f


def _uq(k, u, vals, d, env, M):
  if k == 'unum':
    return len(u)
  x = int(ev(d[1], env, M))
  if k == 'uval':
    if not 0 <= x < len(u):
      raise Undef('range')
    return u[x]
  if k == 'uinv':
    if not 0 <= x < len(vals):
      raise Undef('range')
    return u.index(vals[x])
  if not 0 <= x < len(u):
    raise Undef('range')
  return vals.count(u[x])


_REAL = {
    'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'sin': math.sin,
    'cos': math.cos, 'tanh': math.tanh, 'erf': math.erf,
    'pow': lambda a, b: math.pow(a, b), 'pow2': lambda a: 2.0 ** a,
    'sigmoid': lambda a: 1 / (1 + math.exp(-a)),
}


def close(a, b, mag=0.0):
  if a == b:
    return True
  try:
    fa, fb = float(a), float(b)
  except OverflowError:
    return False
  if isinstance(a, int) and isinstance(b, int):
    return False
  if math.isinf(fa) or math.isinf(fb):
    return fa == fb
  return abs(fa - fb) <= max(1e-6 * max(1.0, abs(fa), abs(fb)), 1e-14 * mag)
