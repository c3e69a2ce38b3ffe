"""P24: decoders predict on, split and grow one consistent octree.

The results of all linear layers are arbitrary values here, so that every
pattern of predicted labels is covered.  Splitting and growing are replaced by
their contracts (decided in P03, P04); the order in which decoders use them is
checked as a typestate protocol.
"""
from .common import *
from .p19_models import octree, attr, decoded, NRM


def item(r, k):
  return dr.interp().getitem(r, k)


class Protocol:
  """Typestate of the levels of the octree a decoder grows."""

  def __init__(self, o, obj=None):
    self.o, self.obj = o, obj
    self.grown, self.split = o.F, o.F - 1
    self.labels = {}
    self.events = 0
    dr.contract('ocnn.octree:Octree.octree_split', lambda **k: self.on_split(k['self'], k['split'], k['depth']))
    dr.contract('ocnn.octree:Octree.octree_grow',
                lambda **k: self.on_grow(k['self'], k['depth'], k.get('update_neigh', True)))

  def same(self, obj):
    if self.obj is None:
      self.obj = obj
    if self.obj is not obj:
      fail('a second octree is split or grown')
    self.events += 1

  def on_split(self, obj, split, depth):
    self.same(obj)
    o, d = self.o, depth
    if d > self.grown or d < o.F:
      fail('level %s is split before it is grown' % d)
    if d != self.split + 1:
      fail('level %s is split, but level %s is next' % (d, self.split + 1))
    check_dims(split, [o.N(d)], 'labels of level %d' % d)
    ok('labels of level %d: one per node' % d)
    self.labels[d] = split
    self.split = d
    obj.d['children'][d] = o.obj.d['children'][d]
    tn.setitem(obj.d['nnum_nempty'], d, S(o.N(d, True)))

  def on_grow(self, obj, depth, update_neigh):
    self.same(obj)
    o, d = self.o, depth
    if d != self.grown + 1:
      fail('level %s is grown, but level %s is next' % (d, self.grown + 1))
    if self.split != d - 1:
      fail('level %d is grown before level %d is split' % (d, d - 1))
    if d > o.D:
      fail('level %d is below the finest level' % d)
    n = o.N(d)
    obj.d['keys'][d] = o.obj.d['keys'][d]
    obj.d['children'][d] = tn.new([n], 'int32', o.dev, lambda i: i[0])
    if update_neigh is not False:
      obj.d['neighs'][d] = o.obj.d['neighs'][d]
    tn.setitem(obj.d['nnum'], d, S(n))
    tn.setitem(obj.d['nnum_nempty'], d, S(n))
    self.grown = d

  def done(self, r, K):
    o = self.o
    out = item(r, 'octree_out')
    if self.obj is not None and out is not self.obj:
      fail('the returned octree is not the grown one')
    if self.split != o.D:
      fail('level %d is never split by its predicted labels' % (self.split + 1))
    decoded(r, o, o.D, o.F, K)
    lg = item(r, 'logits')
    k, dr.Mode.kind = dr.Mode.kind, None
    try:
      for d in range(o.F, o.D + 1):
        t = item(lg, d)
        at = lambda i, c, t=t: t._at((P(i), P(c)))
        # the label is the class of the larger logit, the first one on a tie
        spec = lambda i, at=at: 1 - Ge(at(i, 0) - at(i, 1))
        compare(lambda ix, d=d: self.labels[d]._at(tuple(ix)), lambda ix: spec(*ix), [tm.P(fresh(o.N(d)))],
                [o.N(d)], 'level %d is split by the label predicted for each node' % d)
      sig = item(r, 'signal')
      ft = attr(out, 'features')[o.D]
      if not isinstance(ft, T):
        fail('the decoded octree does not carry the predicted signal')
      check_equal(ft, list(sig._dims), lambda i, c: sig._at((P(i), P(c))),
                  'the decoded octree carries the predicted signal')
    finally:
      dr.Mode.kind = k


def source(D, F, o):
  for d in range(F, D + 1):
    sym('tE%d' % d, 1, 200)
  return Oct(dr.interp(), D, F, pre='t', B=o.B, feats=NRM)


def scope(f):
  def g():
    dr.Mode.kind, dr.Mode.havoc = 'shape', 1
    try:
      f()
    finally:
      dr.Mode.reset()
  return g


def run(name, f):
  ob('P24', name, timeout=200)(scope(f))


def encoded(D, F):
  def f():
    o = octree(D, F)
    m = call(anchor('ocnn.models:AutoEncoder'), 4, 4, D, F)
    p = Protocol(o)
    p.done(call(attr(m, 'decode_code'), feat('code', [o.B * 8 ** F, 64])), 4)
  return f


def roundtrip(D, F):
  """Encoding an octree and decoding onto a fresh one."""
  def f():
    o = octree(D, F)
    i = source(D, F, o)
    m = call(anchor('ocnn.models:AutoEncoder'), 4, 3, D, F)
    p = Protocol(o)
    p.done(call(m, i.obj, True), 3)
    if p.obj is i.obj:
      fail('the input octree is split or grown')
  return f


def ounet(D, F, given):
  def f():
    o = octree(D, F)
    i = source(D, F, o)
    m = call(anchor('ocnn.models:OUNet'), 4, 3, D, F)
    p = Protocol(o)
    if given:
      g = call(anchor('ocnn.octree:init_octree'), D, F, S(o.B))
      r = call(m, i.obj, g, True)
      if p.obj is not g:
        fail('the octree to decode onto is not used')
    else:
      r = call(m, i.obj)
    p.done(r, 3)
    if p.obj is i.obj:
      fail('the input octree is split or grown')
  return f


def image(D, F, code):
  def f():
    o = octree(D, F)
    m = call(anchor('ocnn.models:Image2Shape'), 4, D, F)
    p = Protocol(o)
    if code:
      p.done(call(attr(m, 'decode_code'), feat('code', [o.B * 8 ** F, 32])), 4)
    else:
      p.done(call(m, feat('img', [o.B, 3, 64, 64]), None, True), 4)
  return f


def guided(cls, D, F):
  """Without update the given octree keeps its structure and features."""
  def f():
    o = octree(D, F, feats=NRM)
    m = call(anchor('ocnn.models:' + cls), *((3, D, F) if cls == 'Image2Shape' else (4, 3, D, F)))
    p = Protocol(o)
    n = len(tn.AN.events)
    lists = {k: list(o.obj.d[k]) for k in ('keys', 'children', 'neighs', 'features', 'normals', 'points')}
    if cls == 'Image2Shape':
      r = call(m, feat('img', [o.B, 3, 64, 64]), o.obj)
    elif cls == 'OUNet':
      r = call(m, o.obj, o.obj)
    else:
      r = call(m, o.obj, False)
    if p.events:
      fail('a guided decoder splits or grows an octree')
    for k, v in lists.items():
      if any(a is not b for a, b in zip(v, o.obj.d[k])):
        fail('a guided decoder replaces %s of the given octree' % k)
    for e in tn.AN.events[n:]:
      if e['kind'] in ('mutate', 'setattr') and e['origin']:
        fail('a guided decoder writes to the given octree', e['where'])
    ok('the guiding octree is untouched')
    if item(r, 'octree_out') is not o.obj:
      fail('the guiding octree is not returned')
    decoded(r, o, D, F, 3)
  return f


for _D, _F in ((4, 2), (5, 3), (3, 2), (3, 3)):
  _t = ' D=%d F=%d' % (_D, _F)
  run('AutoEncoder.decode_code' + _t, encoded(_D, _F))
  run('AutoEncoder generates' + _t, roundtrip(_D, _F))
  for _c in (True, False):
    run('OUNet generates onto %s octree' % ('a given' if _c else 'a new') + _t, ounet(_D, _F, _c))
    run('Image2Shape %s' % ('decode_code' if _c else 'generates') + _t, image(_D, _F, _c))
  for _m in ('AutoEncoder', 'OUNet', 'Image2Shape'):
    run(_m + ' guided' + _t, guided(_m, _D, _F))
