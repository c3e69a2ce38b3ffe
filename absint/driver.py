"""Obligation runner: path exploration, equality verdicts, reports."""
import itertools
import os
import random
import signal
import sys
import time
import traceback

from . import terms as tm
from . import tensor as tn
from . import evalm
from . import interp as ip
from . import natives
from .tensor import (Analysis, T, S, RepoError, Unsupported, PathDead, set_analysis,
                     dims_equal, py2poly)
from .terms import P


class AnchorMissing(Exception):
  """A public entry point the property is anchored at no longer exists."""


class Violation(Exception):

  def __init__(self, msg, where=None, key=None):
    super().__init__(msg)
    self.msg, self.where, self.key = msg, where, key


class Undecided(Exception):
  pass


class Timeout(Exception):
  pass


class Run:
  """State shared by the paths of one obligation."""

  def __init__(self):
    self.proved = 0
    self.items = []          # what was compared / scanned
    self.models = []
    self.assumed = set()
    self.paths = 0
    self.fns = {}
    self.notes = []


CUR = None                   # current Run


class Mode:
  """Effect analyses reuse the harnesses without comparing values.

  kind: None (values), 'mut' (mutation of caller data), 'dev' (devices),
  'dtype' (floating point type)
  """
  kind = None
  dev = None
  fdt = None
  havoc = False    # results of linear layers are arbitrary values
  omit = None      # leaves out arguments that have their documented default

  @classmethod
  def reset(cls):
    cls.kind = cls.dev = cls.fdt = None
    cls.havoc = False
    cls.omit = None


INTERP = None


def interp():
  """The (shared) interpreter; module-level state is constant tables only."""
  return INTERP


def anchor(path):
  """Resolves 'pkg.mod:Name.attr' in the analysed tree."""
  mod, _, rest = path.partition(':')
  it = interp()
  try:
    o = it.import_module(mod)
    if isinstance(o, ip.Stub):
      raise AnchorMissing(path)
    for n in (rest.split('.') if rest else []):
      o = it.getattr(o, n)
  except RepoError as ex:
    if ex.kind in ('AttributeError', 'ModuleNotFoundError', 'ImportError'):
      raise AnchorMissing('%s (%s)' % (path, ex))
    raise
  return o


def call(f, *a, **k):
  if Mode.omit is not None:
    a, k = Mode.omit(f, a, k)
  return interp().call(f, a, k)


def contract(path, spec):
  """Replaces an analysed function by its (separately proved) contract.

  spec receives the bound arguments by name.
  """
  f = anchor(path)
  if not isinstance(f, ip.IFunction):
    raise AnchorMissing(path)

  def hook(*a, **k):
    return spec(**interp().bind(f, a, k))
  interp().hooks[f.qual] = hook


def site(f):
  """file:line of an analysed function, for reports."""
  if isinstance(f, ip.BoundMethod):
    f = f.f
  if isinstance(f, ip.IClass):
    return '%s (class %s)' % (f.module.file, f.name)
  if isinstance(f, ip.IFunction):
    return '%s:%d in %s' % (f.module.file, f.node.lineno, f.qual)
  return repr(f)


def fail(msg, where=None, key=None):
  raise Violation(msg, where or tn.AN.where(), key)


def ok(what):
  CUR.proved += 1
  CUR.items.append(what)


def set_models(fnsets):
  """fnsets: list of dicts name->callable (finite structures)."""
  CUR.models = fnsets
  sizes = []
  for i, f in enumerate(fnsets):
    def m(p, f=f, i=i):
      M = evalm.Model(f, i)
      return evalm.ev(P(p), {}, M)
    sizes.append(m)
  tn.AN.models = sizes


def path_ok(M):
  """Does the finite structure satisfy the branch decisions of this path?"""
  an = tn.AN
  for (p, _), v in zip(an.decisions, an.script):
    try:
      x = evalm.ev(p, {}, M)
    except evalm.Undef:
      return None
    if bool(x) != v:
      return False
  return True


def check_dims(t, dims, what):
  if not isinstance(t, T):
    fail('%s: result is %s, not a tensor' % (what, type(t).__name__))
  if len(t._dims) != len(dims):
    fail('%s: result has %d dims %s, expected %s' % (what, len(t._dims), t._dims, dims), t._st.loc)
  for a, b in zip(t._dims, dims):
    if not dims_equal(a, P(b)):
      fail('%s: result has shape %s, expected %s' % (
          what, tuple(t._dims), tuple(P(d) for d in dims)), t._st.loc)


def check_dtype(t, dt, what):
  if Mode.fdt and dt == 'float32':
    dt = Mode.fdt
  if t._dt != dt:
    fail('%s: result dtype is %s, expected %s' % (what, t._dt, dt), t._st.loc)


def lossless(t, what):
  """No value on the way was rounded to a narrower floating point type."""
  from .torchlib import FPREC
  for s, f, src, dst, loc in tn.AN.narrows:
    if FPREC[dst] < FPREC.get(t._dt, 0):
      if src in tn.INTS:            # small integers are exact in any type
        vs = [P(tm.named('q%d' % i, d)) if d.const() != 1 else P(0) for i, d in enumerate(s._dims)]
        try:
          g = P(f(tuple(vs)))
          if tm.ge0(P(2 ** FPREC[dst]) - g) and tm.ge0(g + 2 ** FPREC[dst]):
            continue
        except (tm.Budget, Unsupported):
          pass
      fail('%s: a %s value is rounded to %s on the way to a %s result' % (what, src, dst, t._dt), loc)


def check_equal(t, dims, spec, what, dtype=None, enum=64, pre=None, samples=64, eager=False):
  """got == spec for every index; spec: callable on index Polys."""
  check_dims(t, dims, what)
  lossless(t, what)
  if dtype is not None:
    check_dtype(t, dtype, what)
  elif Mode.kind == 'dtype' and t._dt in tn.FLOATS:
    check_dtype(t, 'float32', what)
  if Mode.kind == 'dev' and t._dev != tn.dev_of(Mode.dev):
    fail('%s: the result is on %s, the data on %s' % (what, t._dev, Mode.dev), t._st.loc)
  if Mode.kind:
    ok(what)
    return
  dims = [P(d) for d in dims]
  vs = [tm.named('q%d' % i, d) for i, d in enumerate(dims)]
  idx = [P(v) if d.const() != 1 else P(0) for v, d in zip(vs, dims)]
  compare(lambda ix: t._at(tuple(ix)), lambda ix: P(spec(*ix)), idx, dims, what,
          t._st.loc, enum, pre, samples, eager)


def compare(gf, sf, idx, dims, what, where=None, enum=64, pre=None, samples=64, eager=False):
  if Mode.kind:
    return
  if len(dims) == 1 and enum and not eager:
    enum = max(enum, 4096)
  pairs = []

  def one(ix):
    try:
      g, s = P(gf(ix)), P(sf(ix))
    except tm.Budget:
      raise Undecided('%s: budget' % what)
    if pre is not None:
      c = P(pre(*ix))
      g, s = tm.mul(c, g), tm.mul(c, s)
    if g == s:
      return True
    if eager:
      try:
        if deep_expand(g) == deep_expand(s):
          return True
      except tm.Budget:
        pass
    d = g - s
    if d.const() == 0 or tm.absorb(g) == tm.absorb(s):
      return True
    if has_small_sum(d):
      try:
        if expand(d).const() == 0:
          return True
      except tm.Budget:
        pass
    try:
      if by_cases(d):
        return True
    except tm.Budget:
      pass
    pairs.append((g, s, ix))
    return False
  if eager:
    # small dimensions are enumerated at once (no symbolic case splits on them)
    for combo in itertools.product(*[
        range(int(d.const())) if d.const() is not None and d.const() <= enum else (None,)
        for d in dims]):
      ix = [x if c is None else P(c) for x, c in zip(idx, combo)]
      if not one(ix):
        refute(pairs[0][0], pairs[0][1], ix, dims, what, where, samples)
        undecided(pairs[0], what)
    ok(what + ' [enumerated]')
    return
  if one(idx):
    ok(what)
    return
  # the refuter first: a quick definite answer for wrong code
  refute(pairs[0][0], pairs[0][1], idx, dims, what, where, samples)
  small = [i for i, d in enumerate(dims) if d.const() is not None and d.const() <= enum]
  if small and enum:
    tot = 1
    for i in small:
      tot *= int(dims[i].const())
    if tot <= 4096:
      pairs.clear()
      good = True
      for combo in itertools.product(*[range(int(dims[i].const())) for i in small]):
        ix = list(idx)
        for i, c in zip(small, combo):
          ix[i] = P(c)
        if not one(ix):
          good = False
          break
      if good:
        ok(what + ' [enumerated %d]' % tot)
        return
  undecided(pairs[-1], what)


def by_cases(d, fuel=2):
  """d == 0 by splitting on the first rows of an index ([q >= c])."""
  for m, c in d.terms:
    for a, e in m:
      if a.kind != 'ge':
        continue
      q = a.data[0]
      vs = [b for b in q.atoms() if b.kind == 'var']
      if len(vs) != 1 or len(q.terms) != 2:
        continue
      k = q - P(vs[0])
      k = k.const()
      if k is None or k.denominator != 1 or not -4 <= k < 0:
        continue
      good = tm.subst(d, {a: P(1)})
      if good.const() != 0 and (not fuel or not by_cases(good, fuel - 1)):
        return False
      for j in range(int(-k)):
        x = tm.subst(d, {vs[0]: P(j)})
        if x.const() != 0 and (not fuel or not by_cases(x, fuel - 1)):
          return False
      return True
  return False


def undecided(pair, what):
  g, s, ix = pair
  if os.environ.get('ABS_DEBUG'):
    print('UNDECIDED', what)
    print('  got ', tm.show(g)[:3000])
    print('  spec', tm.show(s)[:3000])
    for a, v in tn.AN.decisions:
      print('  path', tm.show(a)[:200], v)
  raise Undecided('%s: normal forms differ and no witness was found' % what)


def has_small_sum(p):
  for m, c in p.terms:
    for a, e in m:
      if a.kind == 'sum' and any(
          b.data[1].const() is not None and b.data[1].const() <= 128 for b in a.data[:-1]):
        return True
  return False


def expand(p, limit=128, fuel=None):
  """Unrolls sums over small constant index ranges."""
  fuel = fuel if fuel is not None else [4000]
  p = P(p)
  hit = False
  for m, c in p.terms:
    for a, e in m:
      if a.kind == 'sum' and any(
          b.data[1].const() is not None and b.data[1].const() <= limit for b in a.data[:-1]):
        hit = True
  if not hit:
    return p
  out = []
  for m, c in p.terms:
    t = P(c)
    for a, e in m:
      x = P(a)
      if a.kind == 'sum' and e == 1:
        bvs, body = a.data[:-1], a.data[-1]
        cs = [b for b in bvs if b.data[1].const() is not None and b.data[1].const() <= limit]
        rest = [b for b in bvs if b not in cs]
        if cs:
          fv = [tm.fresh(b.data[1]) for b in rest]
          base = {b: P(v) for b, v in zip(rest, fv)}
          xs = []
          for combo in itertools.product(*[range(int(b.data[1].const())) for b in cs]):
            fuel[0] -= 1
            if fuel[0] < 0:
              raise tm.Budget('expand')
            mp = dict(base)
            mp.update({b: P(v) for b, v in zip(cs, combo)})
            q = tm.subst(body, mp)
            xs.append(expand(tm.mk_sum(fv, q) if fv else q, limit, fuel))
          x = tm.addn(xs)
      t = tm.mul(t, x if e == 1 else tm.powp(P(a), e))
    out.append(t)
  return tm.addn(out)


def small_sums(p, out):
  """Maximal sums over small constant ranges, also inside other functions."""
  for m, c in p.terms:
    for a, e in m:
      if a.kind == 'sum' and any(
          b.data[1].const() is not None and b.data[1].const() <= 128 for b in a.data[:-1]):
        out.add(a)
      elif a.kind != 'sum':
        for x in a.data:
          if isinstance(x, tm.Poly):
            small_sums(x, out)


def deep_expand(p):
  for _ in range(4):
    s = set()
    small_sums(p, s)
    if not s:
      break
    p = tm.subst(p, {a: expand(P(a)) for a in s})
  return p


def refute(g, s, idx, dims, what, where, samples=64):
  tried = 0
  for mi, fns in enumerate(CUR.models or [{}]):
    for seed in (mi, mi + 101):
      M = evalm.Model(fns, seed)
      try:
        ds = [int(evalm.ev(d, {}, M)) for d in dims]
      except evalm.Undef:
        continue
      okp = path_ok(M)
      if okp is not True:
        continue
      tot = 1
      for d in ds:
        tot *= d
      if tot == 0:
        continue
      R = random.Random(seed)
      pts = list(range(tot)) if tot <= samples else R.sample(range(tot), samples)
      for f in pts:
        env = {}
        r = f
        co = []
        for ix, d in reversed(list(zip(idx, ds))):
          co.append(r % d)
          a = ix.single()
          if a is not None and a.kind == 'var':
            env[a] = r % d
          elif ix.const() is not None and int(ix.const()) != r % d:
            env = None
            break
          r //= d
        if env is None:
          continue
        M.budget = 400_000
        try:
          y = evalm.ev(s, env, M)
        except evalm.Undef:
          continue
        try:
          x = evalm.ev(g, env, M)
        except evalm.Undef as ex:
          continue
        tried += 1
        if x != x or y != y:
          continue
        if not evalm.close(x, y, M.mag):
          fail('%s: at index %s of a witness octree the code yields %s, the '
               'specification %s' % (what, tuple(reversed(co)), fmt(x), fmt(y)),
               where)
  return tried


def check_bounds(samples=40):
  """Index tensors must stay within the indexed dimension on every witness.

  Only separates: an index out of range on a witness structure is a definite
  run-time error of the analysed code.
  """
  for size, dims, f, neg, loc in tn.AN.bounds[:60]:
    vs = [tm.named('q%d' % i, d) for i, d in enumerate(dims)]
    try:
      g = P(f(tuple(P(v) if d.const() != 1 else P(0) for v, d in zip(vs, dims))))
    except (tm.Budget, Unsupported):
      continue
    if g.const() is not None and size.const() is None:
      pass
    elif tm.ge0(size - 1 - g) and tm.ge0(g + size if neg else g):
      CUR.items.append('index in range at %s' % loc)
      continue
    for mi, fns in enumerate(CUR.models):
      M = evalm.Model(fns, mi)
      if path_ok(M) is not True:
        continue
      try:
        n = int(evalm.ev(size, {}, M))
        ds = [int(evalm.ev(d, {}, M)) for d in dims]
      except evalm.Undef:
        continue
      tot = 1
      for d in ds:
        tot *= d
      R = random.Random(mi)
      pts = range(tot) if tot <= samples else [0, tot - 1] + R.sample(range(tot), samples - 2)
      for pt in pts:
        env, r = {}, pt
        for v, d in reversed(list(zip(vs, ds))):
          env[v] = r % d
          r //= d
        M.budget = 100_000
        try:
          x = evalm.ev(g, env, M)
        except evalm.Undef:
          continue
        if not (-n if neg else 0) <= x < n:
          fail('index %s is out of bounds for a dimension of size %d on a witness octree' % (
              fmt(x), n), loc)


def corner(M):
  """The model with every size at the upper end of its documented range."""
  fns = dict(M.fns)
  for n, f in tm.Ctx.fns.items():
    if f.sort == 'i' and isinstance(f.lo, int) and (f.hi is None or isinstance(f.hi, int)):
      fns[n] = (lambda hi: lambda *a: hi)(f.hi if f.hi is not None else 2 ** 16)
  return evalm.Model(fns, M.seed)


def check_ranges(samples=40):
  """Integers must fit into the type that holds them."""
  for dt, dims, f, loc in tn.AN.ranges:
    lo, hi = tn.LIMITS[dt]
    vs = [tm.named('q%d' % i, d) for i, d in enumerate(dims)]
    try:
      g = P(f(tuple(P(v) if d.const() != 1 else P(0) for v, d in zip(vs, dims))))
    except (tm.Budget, Unsupported):
      continue
    if g.isint and tm.ge0(P(hi) - g) and tm.ge0(g - lo):
      CUR.items.append('values of %s fit at %s' % (dt, loc))
      continue
    ms = [evalm.Model(fns, mi) for mi, fns in enumerate(CUR.models)]
    plain = all(a.kind in ('var', 'app') and (a.kind == 'var' or len(a.data) == 1) for a in g.atoms())
    if plain and dt not in ('int32', 'int64'):
      ms = [corner(M) for M in ms[:1]] + ms
    for M in ms:
      if path_ok(M) is not True:
        continue
      try:
        ds = [int(evalm.ev(d, {}, M)) for d in dims]
      except evalm.Undef:
        continue
      tot = 1
      for d in ds:
        tot *= d
      R = random.Random(M.seed)
      pts = range(tot) if tot <= samples else [0, tot - 1] + R.sample(range(tot), samples - 2)
      for pt in pts:
        env, r = {}, pt
        for v, d in reversed(list(zip(vs, ds))):
          env[v] = r % d
          r //= d
        M.budget = 100_000
        try:
          x = evalm.ev(g, env, M)
        except evalm.Undef:
          continue
        if x == x and not lo <= x <= hi:
          fail('the value %s does not fit into %s' % (fmt(x), dt), loc)


def check_assumed():
  """Assertions and shape agreements that were taken for granted must hold on
  every witness structure; each witness is a legitimate input."""
  for it in tn.AN.assumed:
    p = P(it[0]) if len(it) == 2 else tm.Eq(P(it[0]) - P(it[1]))
    for mi, fns in enumerate(CUR.models):
      M = evalm.Model(fns, mi)
      if path_ok(M) is not True:
        continue
      M.budget = 100_000
      try:
        x = evalm.ev(p, {}, M)
      except evalm.Undef:
        continue
      if not x:
        fail('%s fails for legitimate data on a witness' % (
            'an assertion' if len(it) == 2 else 'agreement of sizes'), it[-1])


def fmt(x):
  try:
    return '%d' % x if isinstance(x, int) else '%.6g' % float(x)
  except Exception:
    return str(x)


def check_const(t, shape, vals, what):
  if Mode.kind:
    return
  ci = t._const_items(1 << 16) if isinstance(t, T) else None
  if ci is None:
    raise Undecided(what + ': not a constant table')
  if list(ci[0]) != list(shape):
    fail('%s: shape %s expected %s' % (what, ci[0], shape), t._st.loc)
  for i, (a, b) in enumerate(zip(ci[1], vals)):
    if a != b:
      fail('%s: entry %d is %s, expected %s' % (what, i, a, b), t._st.loc)
  ok(what)


# ------------------------------------------------------------------- exploring
def explore(fn, max_paths=64, timeout=200):
  """Runs an obligation on every path.  Returns (status, info)."""
  global CUR
  run = CUR = Run()
  script = []
  t0 = time.time()
  undec = []
  viol = None

  def onalarm(sig, frm):
    raise Timeout()
  old = signal.signal(signal.SIGALRM, onalarm)
  signal.alarm(timeout)
  try:
    while True:
      run.paths += 1
      an = Analysis()
      an.script = list(script)
      tm.Ctx.reset()
      for d in ('masks', 'mask_size', 'rank_of'):
        getattr(tm.Ctx, d).clear()
      for m in ('_ivi_memo', '_cm_memo', '_has_memo', '_cont_memo'):
        if hasattr(tm, m):
          getattr(tm, m).clear()
      tm.Limits.ops = 0
      ip.OWNED.clear()
      set_analysis(an)
      an.frames.append(['<harness>', 0, fn.__name__])
      INTERP.depth = 0
      INTERP.hooks.clear()
      try:
        try:
          fn()
        finally:
          ex = sys.exc_info()[0]
          if ex is None or issubclass(ex, (Unsupported, Undecided, tm.Budget)):
            if not Mode.kind:
              check_bounds()
              check_ranges()
              check_assumed()
      except PathDead:
        pass
      except Violation as ex:
        viol = ex
        break
      except RepoError as ex:
        # definite run-time error of the analysed code on this path
        feas = feasible()
        if feas:
          viol = Violation('the code raises %s: %s' % (ex.kind, ex.msg), ex.loc)
          break
        undec.append('raises %s on a path without witness (%s)' % (ex, ex.loc))
      except (Unsupported, Undecided, tm.Budget) as ex:
        undec.append('%s: %s (%s)' % (type(ex).__name__, ex, an.where()))
        if os.environ.get('ABS_DEBUG'):
          traceback.print_exc()
      except RecursionError:
        undec.append('RecursionError')
      # next path
      script = list(an.script)
      while script and script[-1] is False:
        script.pop()
      if not script:
        break
      script[-1] = False
      if run.paths >= max_paths:
        undec.append('path limit')
        break
  except Timeout:
    undec.append('timeout')
  except AnchorMissing:
    raise
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
  run.wall = time.time() - t0
  if viol is not None:
    return 'VIOLATION', run, viol
  if undec:
    return 'UNDECIDED', run, undec
  return 'PROVED', run, None


def feasible():
  an = tn.AN
  if not an.decisions:
    return True
  if not CUR.models:
    return False
  for i, fns in enumerate(CUR.models):
    if path_ok(evalm.Model(fns, i)):
      return True
  return False


def init():
  """Parses and links the package once."""
  global INTERP
  an = Analysis()
  set_analysis(an)
  tm.Ctx.reset()
  an.frames.append(['<import>', 0, 'import'])
  INTERP = natives.make_interp()
  try:
    INTERP.import_module('ocnn')
  except RepoError as ex:
    raise Violation('importing the package fails: %s' % ex, ex.loc)
  return INTERP
