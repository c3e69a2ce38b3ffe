"""P21: drop path."""
from .common import *

D, F = 4, 2


def setup():
  o = Oct(dr.interp(), D, F, neigh=False)
  set_models(octree_models(D, F, C=small))
  return o, sym('C')


def identity(d, nempty, prob, training):
  def f():
    o, C = setup()
    x = feat('x', [o.N(d, nempty), C])
    m = call(anchor('ocnn.nn:OctreeDropPath'), prob, nempty)
    dr.interp().call(dr.interp().getattr(m, 'train' if training else 'eval'), (), {})
    r = call(m, x, o.obj, d)
    check_equal(r, [o.N(d, nempty), C], lambda i, c: App('x', i, c), 'drop path is the identity')
    if any(e['kind'] == 'mutation' for e in tn.AN.events):
      fail('drop path modifies a tensor of the caller')
  return f


for _d in (2, 4):
  for _n in (False, True):
    ob('P21', 'evaluation d=%d nempty=%d' % (_d, _n))(identity(_d, _n, 0.3, False))
    ob('P21', 'zero probability d=%d nempty=%d' % (_d, _n))(identity(_d, _n, 0.0, True))


def train(d, nempty, scale, given, dt='float32'):
  def f():
    o, C = setup()
    declare('p', 'f', tm.Fraction(1, 10 ** 6), 1 - tm.Fraction(1, 10 ** 6))
    for s, m in enumerate(dr.CUR.models):
      m['p'] = lambda s=s: tm.Fraction(1 + s % 3, 4)
    x = feat('x', [o.N(d, nempty), C], dt)
    n0 = len(tn.AN.events)
    m = call(anchor('ocnn.nn:OctreeDropPath'), tn.mk_scalar(App('p')), nempty, scale)
    kw = {}
    bid = lambda i: tm.mk_slc(o.key(d, o.sel(d, i) if nempty else i), 48, None)
    if given:
      kw['batch_id'] = feat('bid', [o.N(d, nempty)], 'int64', lo=0, hi=o.B - 1)
      for s, mm in enumerate(dr.CUR.models):
        mm['bid'] = lambda i, s=s: (int(i) * 7 + s) % 2
      bid = lambda i: App('bid', i)
    r = call(m, x, o.obj, d, **kw)
    rnd = [e for e in tn.AN.events[n0:] if e['kind'] == 'random']
    if len(rnd) != 1:
      raise Undecided('drop path draws %d random tensors' % len(rnd))
    u, rd = rnd[0]['name'], rnd[0]['dims']
    big = [x for x in rd if x.const() != 1]
    if len(big) != 1 or not tn.dims_equal(big[0], o.B):
      fail('drop path draws random numbers of shape %s, expected one per sample' % rd)
    p = App('p')
    draw = lambda b: App(u, *[P(0) if x.const() == 1 else b for x in rd])
    # events of probability 1 - p over one uniform draw per sample
    kept = [lambda b: Ge(draw(b) - p), lambda b: Ge(1 - p - draw(b)),
            lambda b: tm.Gt(draw(b) - p), lambda b: tm.Gt(1 - p - draw(b))]
    first = None
    for k in kept:
      def spec(i, c, k=k):
        v = mul(App('x', i, c), k(bid(i)))
        return mul(v, powp(1 - p, -1)) if scale else v
      try:
        check_equal(r, [o.N(d, nempty), C], spec,
                    'a sample is kept as a whole with probability 1 - drop_prob', dtype=dt)
        return
      except (dr.Violation, Undecided) as ex:
        first = first or ex
    raise first
  return f


for _d in (2, 4):
  for _n in (False, True):
    for _s in (False, True):
      for _g in (False, True):
        ob('P21', 'training d=%d nempty=%d scale=%d given ids=%d' % (_d, _n, _s, _g))(train(_d, _n, _s, _g))
ob('P21', 'training float64')(train(4, True, True, False, 'float64'))
