"""P10: backward passes are the exact adjoints of the forward maps."""
from .common import *
from .p08_conv import ks, tabk, setup, unlimited, out_rows, KERNELS, mulall
from .p11_pool import nbh


def applications(since):
  """autograd.Function applications recorded by the analysis."""
  return [e for e in tn.AN.events[since:] if e['kind'] == 'function']


def backward(ev, g, needs):
  """Runs the analysed backward for one recorded application."""
  cls, ctx, args = ev['cls'], ev['ctx'], ev['args']
  it = dr.interp()
  ctx.needs_input_grad = tuple(bool(isinstance(a, T) and needs(a)) for a in args)
  r = it.call(it.getattr(cls, 'backward'), (ctx, g), {})
  if not isinstance(r, tuple):
    r = (r,)
  if len(r) < len(args) or any(v is not None for v in r[len(args):]):
    fail('backward returns %d gradients for %d forward arguments' % (len(r), len(args)),
         dr.site(it.getattr(cls, 'backward')))
  for i, (a, v) in enumerate(zip(args, r)):
    if not isinstance(a, T) and v is not None:
      fail('backward returns a gradient for the non-tensor argument %d' % i)
  ok('backward returns one gradient per forward argument')
  return r


def make(op, kernel, stride, nempty, d, o, C, K, MB, wdt='float32'):
  kd = len(LUT[kernel])
  if op == 'dw':
    m = call(anchor('ocnn.nn:OctreeDWConv'), S(C), ks(kernel), stride, nempty, max_buffer=MB)
    w = feat('w', [kd, 1, C], wdt)
  else:
    cls = anchor('ocnn.nn:OctreeConv' if op == 'conv' else 'ocnn.nn:OctreeDeconv')
    m = call(cls, S(C), S(K), ks(kernel), stride, nempty, max_buffer=MB)
    w = feat('w', [kd, C, K] if op == 'conv' else [kd, K, C], wdt)
  if wdt != 'float32':
    m.d['weights']._dt = wdt
  return m, setp(m, 'weights', w)


def specs(op, o, d, kernel, stride, nempty, C, K):
  """(output rows of the function, grad of x, grad of w, their dims)."""
  kd = len(LUT[kernel])
  dn = d + 1 if op == 'deconv' and stride == 2 else d
  if op == 'deconv':
    n_in = o.N(d, True) if stride == 2 else o.N(d, nempty)
    n_out = o.N(dn, nempty)
    rows = n_in
  else:
    n_in, n_out = o.N(d, nempty), out_rows(o, d, stride, nempty)
    rows = n_out
  idx = lambda i, k: nbh(o, dn, i, tabk(kernel, k), stride, nempty)
  g = lambda i, c: App('g', i, c)
  x = lambda i, c: App('x', i, c)
  if op == 'conv':
    def gx(j, a):
      i, k, b = fresh(rows), fresh(P(kd)), fresh(K)
      q = idx(P(i), P(k))
      return mk_sum([i, k, b], mulall([Ge(q), Eq(q - j), g(P(i), P(b)), App('w', P(k), a, P(b))]))

    def gw(k, a, b):
      i = fresh(rows)
      q = idx(P(i), k)
      return mk_sum([i], mulall([Ge(q), x(q, a), g(P(i), b)]))
    wd = [kd, C, K]
  elif op == 'dw':
    def gx(j, a):
      i, k = fresh(rows), fresh(P(kd))
      q = idx(P(i), P(k))
      return mk_sum([i, k], mulall([Ge(q), Eq(q - j), g(P(i), a), App('w', P(k), P(0), a)]))

    def gw(k, z, a):
      i = fresh(rows)
      q = idx(P(i), k)
      return mk_sum([i], mulall([Ge(q), x(q, a), g(P(i), a)]))
    wd = [kd, 1, C]
  else:
    def gx(i, a):
      k, b = fresh(P(kd)), fresh(K)
      q = idx(i, P(k))
      return mk_sum([k, b], mulall([Ge(q), g(q, P(b)), App('w', P(k), P(b), a)]))

    def gw(k, b, a):
      i = fresh(rows)
      q = idx(P(i), k)
      return mk_sum([i], mulall([Ge(q), x(P(i), a), g(q, b)]))
    wd = [kd, K, C]
  return n_in, n_out, gx, gw, wd


def run(op, o, d, kernel, stride, nempty, C, K, MB, samples=64, enum=0,
        xdt='float32', wdt='float32', plain=False):
  n_in, n_out, gx, gw, wd = specs(op, o, d, kernel, stride, nempty, P(C), P(K))
  x = feat('x', [o.N(d, nempty), C], xdt)
  since = len(tn.AN.events)
  if plain:
    # the function itself, all options left out
    w = feat('w', wd, wdt)
    fn = {'conv': 'octree_conv', 'deconv': 'octree_deconv', 'dw': 'octree_dwconv'}[op]
    y = call(anchor('ocnn.nn.octree_%s:%s' % ('dwconv' if op == 'dw' else 'conv', fn)),
             x, w, o.obj, d, *([C] if op == 'dw' else [C, K]))
  else:
    m, w = make(op, kernel, stride, nempty, d, o, P(C), P(K), MB, wdt)
    y = call(m, x, o.obj, d)
  check_dtype(y, xdt, 'the result of the forward pass')
  apps = applications(since)
  if not apps:
    ok('no custom gradient is involved')
    return
  for ev in apps:
    args = ev['args']
    ia = [i for i, a in enumerate(args) if isinstance(a, T)]
    iw = [i for i in ia if args[i] is w]
    ix = [i for i in ia if args[i] is not w]
    if len(iw) != 1 or len(ix) != 1:
      raise Undecided('the custom function takes %d tensors' % len(ia))
    iw, ix = iw[0], ix[0]
    if op == 'deconv' and args[ix] is not x:
      # the occupied rows, gathered before: name them x
      xx = feat('x', [n_in, C], xdt)
      since = len(tn.AN.events)
      a2 = list(args)
      a2[ix] = xx
      it = dr.interp()
      it.call(it.getattr(ev['cls'], 'apply'), tuple(a2), {})
      ev = applications(since)[-1]
    Ko = C if op == 'dw' else K
    g = feat('g', [n_out, Ko], xdt)
    r = backward(ev, g, lambda a: True)
    check_equal(r[ix], [n_in, C], gx, 'gradient of the data is the adjoint of the forward map',
                dtype=xdt, samples=samples, enum=enum)
    check_equal(r[iw], wd, gw, 'gradient of the weights', dtype=wdt, samples=samples, enum=enum)
    for need in (ix, iw):
      r = backward(ev, g, lambda a: a is ev['args'][need])
      for i in (ix, iw):
        if i == need:
          check_equal(r[i], [n_in, C] if i == ix else wd, gx if i == ix else gw,
                      'gradient with only one input needing it', samples=8, enum=enum)
        elif r[i] is not None:
          fail('a gradient is computed for an argument that needs none')
    ok('gradients are computed on demand')


def adjoint(op, F, d, kernel, stride, nempty):
  def f():
    o = setup(F)
    C, K = sym('C'), sym('K')
    kd = len(LUT[kernel])
    rows = specs(op, o, d, kernel, stride, nempty, C, K)
    r0 = rows[0] if op == 'deconv' else rows[1]
    MB = unlimited(o, r0, kd, K if op == 'deconv' else C)
    run(op, o, d, kernel, stride, nempty, C, K, S(MB))
  return f


for _op in ('conv', 'deconv', 'dw'):
  for _k in KERNELS:
    for _s in (1, 2):
      for _n in (False, True):
        _d = 3 if _op == 'deconv' else 4
        ob('P10', '%s k=%s s=%d nempty=%d' % (_op, _k, _s, _n))(adjoint(_op, 2, _d, _k, _s, _n))
        if _k in ('333', '222'):
          for _dd in ((1, 2) if _op == 'deconv' else (2, 3)):
            ob('P10', '%s k=%s s=%d nempty=%d depth=%d' % (_op, _k, _s, _n, _dd))(
                adjoint(_op, 2, _dd, _k, _s, _n))


def chunked(op, d, kernel, stride, nempty, h, C=2, K=3):
  def f():
    from .p09_chunk import fulloct
    o = fulloct(3 if stride == 2 else 2, 2)
    kd = len(LUT[kernel])
    cin = K if op == 'deconv' else C
    run(op, o, d, kernel, stride, nempty, C, K, h * kd * cin, samples=300, enum=64)
  return f


for _op in ('conv', 'deconv', 'dw'):
  for _k, _s in (('222', 1), ('311', 1), ('222', 2)):
    for _n in (False, True):
      for _h in (1, 2) if _s == 2 else (3, 5):
        _d = 0 if (_op == 'deconv' and _s == 2) else 1
        ob('P10', '%s k=%s s=%d nempty=%d buffer of %d rows' % (_op, _k, _s, _n, _h))(
            chunked(_op, _d, _k, _s, _n, _h))
