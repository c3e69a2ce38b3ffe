"""Batch isolation: may-depend analysis of the value of a result entry.

A row index is *local* when it denotes a node (or query) of the sample the
entry belongs to.  Locality is propagated through the relations that stay
inside a sample by the octree invariants (neighbour, child, parent, rank and
selection of occupied nodes) and through key searches whose key carries the
sample; sums over all rows must be restricted by a bracket to local ones.
An entry all of whose reads are local, and in which no absolute index or total
count occurs as a value, is a function of the sample alone.
"""
from . import terms as tm
from .terms import P


class NotLocal(Exception):
  pass


LOC, PT, SMP = 'loc', 'pt', 'sample'


class Iso:

  def __init__(self, o, data, query='Q', samples=()):
    """data: name -> type of the first argument; samples: names of sample columns."""
    self.o, self.data, self.samples = o, data, set(samples)
    self.sizes = {}
    for d in range(o.D, -1, -1):
      self.sizes[P(o.N(d, True)).key] = self.t('E', d)
      self.sizes[P(o.N(d)).key] = ('N', d)
    self.sizes[P(tm.App(query)).key] = PT
    self.sizes[o.B.key] = SMP
    self.masks = {m.key: d for d, m in o.masks.items() if m is not None}
    self.totals = {'%sE%d' % (o.pre, d) for d in range(o.D + 1)} | {'B', query}
    self.keys = {'%skey%d' % (o.pre, d): d for d in range(o.D + 1)}
    self.chs = {'%sch%d' % (o.pre, d): d for d in range(o.D + 1)}
    self.nbs = {'%snb%d' % (o.pre, d): d for d in range(o.D + 1)}
    self.reads = 0

  def t(self, k, d):
    return ('N', d) if d < self.o.F else (k, d)

  def fail(self, why, x):
    raise NotLocal('%s: %s' % (why, tm.show(P(x))[:160]))

  # ------------------------------------------------------------- types
  def ty(self, p, env, facts=()):
    p = P(p)
    if p.const() is not None:
      return LOC
    a = p.single()
    if a is not None:
      return self.atom(a, env, facts)
    # child of an occupied node: 8 e + octant
    for m, c in p.terms:
      if c == 8 and len(m) == 1 and m[0][1] == 1:
        try:
          t = self.atom(m[0][0], env, facts)
        except NotLocal:
          continue
        if isinstance(t, tuple) and (t[0] == 'E' or t[1] < self.o.F or t == ('N', self.o.F)):
          r = p - tm.scale(P(m[0][0]), 8)
          lo, hi = tm.nrange(r)
          if lo >= 0 and hi <= 7 and t[1] < self.o.D and (t[0] == 'E' or t[1] < self.o.F):
            if self.ty(r, env, facts) == LOC:
              return ('N', t[1] + 1)
    for m, c in p.terms:
      self.mono(m, env, facts)
    return LOC

  def mono(self, m, env, facts):
    """Every factor of the product is a local value."""
    eqs = [a for a, e in m if a.kind == 'eq']
    facts = tuple(facts) + tuple(eqs)
    for a, e in m:
      t = self.atom(a, env, facts)
      if t != LOC and t != SMP:
        self.fail('an absolute row index is used as a value', P(a))

  def is_sample(self, p, env, facts):
    try:
      return self.ty(p, env, facts) == SMP
    except NotLocal:
      return False

  def atom(self, a, env, facts):
    k, d = a.kind, a.data
    if k in ('var', 'bv'):
      t = env.get(a)
      if t is None:
        self.fail('a row of any sample', P(a))
      return t
    if k == 'app':
      n, args = d[0], d[1:]
      if n in self.totals:
        self.fail('a total over the batch', P(a))
      if n in self.keys or n in self.chs or n in self.nbs:
        lv = (self.keys.get(n), self.chs.get(n), self.nbs.get(n))
        lv = next(x for x in lv if x is not None)
        if self.ty(args[0], env, facts) != ('N', lv):
          self.fail('structure of a foreign node', P(a))
        for x in args[1:]:
          self.local(x, env, facts)
        return LOC if n in self.keys else self.t('E', lv) if n in self.chs else ('N', lv)
      if n in self.data:
        t = self.ty(args[0], env, facts)
        if t != self.data[n]:
          self.fail('data of a foreign row', P(a))
        for x in args[1:]:
          self.local(x, env, facts)
        self.reads += 1
        return SMP if n in self.samples else LOC
      for x in args:
        self.local(x, env, facts)
      return LOC
    if k == 'slc':
      src, s, n = d
      t = self.ty(src, env, facts)
      s0 = src.single()
      if s0 is not None and s0.kind == 'app' and s0.data[0] in self.keys and s == 48 and n is None:
        return SMP
      if isinstance(t, tuple):
        if t[0] == 'N' and n is None and s % 3 == 0 and 0 < s // 3 <= t[1]:
          up = t[1] - s // 3
          if t[1] <= self.o.F and s == 3 * t[1]:
            return SMP
          if s == 3 or t[1] <= self.o.F:
            return self.t('E', up)
        if t[0] == 'N' and n is not None and (s, n) == (0, 3):
          return LOC
        if t[0] == 'N' and n is not None and t[1] <= self.o.F and s + n <= 3 * t[1]:
          return LOC
        self.fail('digits of an absolute index', P(a))
      return LOC
    if k == 'sel':
      lv = self.masks.get(d[1].key)
      if lv is None or d[0] != 0 or self.ty(d[2], env, facts) != ('E', lv):
        self.fail('selection', P(a))
      return ('N', lv)
    if k == 'lb':
      return self.search(a, env, facts)
    if k in ('ge', 'gt', 'eq'):
      self.bracket(a, env, facts)
      return LOC
    if k == 'sum':
      for m, c in d[-1].terms:
        self.binder(d[:-1], m, env, facts)
      return LOC
    for x in d:
      if isinstance(x, tm.Poly):
        self.local(x, env, facts)
      elif isinstance(x, tm.Lam):
        e2 = dict(env)
        for b in x.bvs:
          if b.data[1].key in self.sizes:
            self.fail('reduction over rows of all samples', P(a))
          e2[b] = LOC
        self.local(x.body, e2, facts)
    return LOC

  def local(self, p, env, facts):
    t = self.ty(p, env, facts)
    if t not in (LOC, SMP):
      self.fail('an absolute row index is used as a value', p)

  def search(self, a, env, facts):
    """Position of a key that is present and carries the sample."""
    l, q = a.data
    body = l.body.single()
    v = P(l.bvs[0])
    if body is None or body.kind != 'app' or body.data[0] not in self.keys:
      self.fail('search in another list', P(a))
    d = self.keys[body.data[0]]
    x = body.data[1]
    s = x.single()
    if x.key == v.key:
      t, at = ('N', d), P(a)
    elif s is not None and s.kind == 'sel' and self.masks.get(s.data[1].key) == d and \
        s.data[2].key == v.key:
      t, at = ('E', d), tm.mk_sel(0, s.data[1], P(a))
    else:
      self.fail('search in another list', P(a))
    if not self.is_sample(tm.mk_slc(q, 48, None), env, facts):
      self.fail('the searched key does not carry the sample', q)
    self.local(q, env, facts)
    want = tm.Eq(tm.App(body.data[0], at) - q).single()
    if want is None or not any(f.key == want.key for f in facts):
      self.fail('the search result is not checked', P(a))
    return t

  def bracket(self, a, env, facts):
    p = a.data[0]
    if a.kind == 'eq':
      facts = tuple(facts) + (a,)
    try:
      self.local(p, env, facts)
      return
    except NotLocal as ex:
      why = ex
    # existence of a row: p >= 0, p < 0
    for q in (p, -1 - p) if a.kind == 'ge' else ():
      try:
        if isinstance(self.ty(q, env, facts), tuple):
          return
      except NotLocal:
        pass
    # existence of a neighbour, child or search result
    for m, c in p.terms:
      if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
        b = m[0][0]
        rest = p - tm.scale(P(b), c)
        if b.kind == 'app' and (b.data[0] in self.nbs or b.data[0] in self.chs) and \
            rest.const() is not None and a.kind != 'eq':
          if (c == 1 and rest.const() == 0) or (c == -1 and rest.const() == -1):
            self.atom(b, env, facts)
            return
        if b.kind == 'app' and (b.data[0] in self.nbs or b.data[0] in self.chs) and \
            a.kind == 'eq' and rest.const() == c:
          self.atom(b, env, facts)
          return
        if b.kind == 'lb' and c == -1 and self.sizes.get((rest + 1).key) is not None:
          if self.search(b, env, facts)[0] == self.sizes[(rest + 1).key][0]:
            return
        if b.kind == 'lb' and c == 1 and self.sizes.get((-rest).key) is not None:
          if self.search(b, env, facts)[0] == self.sizes[(-rest).key][0]:
            return
        # two indices of the same kind
        t = None
        try:
          t = self.atom(b, env, facts)
          u = self.ty(tm.scale(rest, -1 / c), env, facts)
        except NotLocal:
          continue
        if isinstance(t, tuple) and t == u and a.kind == 'eq':
          return
    raise why

  def binder(self, bvs, m, env, facts):
    e2 = dict(env)
    free = []
    for b in bvs:
      t = self.sizes.get(b.data[1].key)
      if t is None:
        self.size(b.data[1])
        e2[b] = LOC
      else:
        free.append((b, t))
    eqs = [a for a, e in m if a.kind == 'eq']
    while free:
      for b, t in free:
        if any(self.restricts(q, b, t, e2, facts) for q in eqs):
          e2[b] = t
          free.remove((b, t))
          break
      else:
        self.fail('sum over rows of all samples', P(tm.mk_sum([], tm.Poly({m: 1}))))
    self.mono(m, e2, facts)

  def size(self, n):
    for x in tm.atoms_of(n):
      if x.kind == 'app' and x.data[0] in self.totals:
        self.fail('range', n)

  def restricts(self, q, b, t, env, facts):
    """Does the equality force b to be a local row?"""
    p = q.data[0]
    e2 = dict(env)
    e2[b] = t
    mine = [(m, c) for m, c in p.terms if any(tm.contains(a, b) for a, e in m)]
    if len(mine) != 1 or len(mine[0][0]) != 1 or mine[0][0][0][1] != 1:
      return False
    a, c = mine[0][0][0][0], mine[0][1]
    if abs(c) != 1:
      return False
    other = tm.scale(p - tm.scale(P(a), c), -1 / c)
    try:
      u = self.ty(other, env, facts)
      v = self.atom(a, e2, tuple(facts) + (q,))
    except NotLocal:
      return False
    if v == SMP and u == SMP:
      return True
    if isinstance(v, tuple) and u == v:
      return True
    # equal keys belong to the same sample
    if a.kind == 'app' and a.data[0] in self.keys:
      return self.is_sample(tm.mk_slc(other, 48, None), env, facts)
    return False


def check(iso, value, env):
  """Raises NotLocal unless the value depends on local rows only."""
  for m, c in P(value).terms:
    iso.mono(m, env, ())
  return iso.reads
