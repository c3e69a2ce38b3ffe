"""P08: the convolution family computes its mathematical definition."""
from .common import *
from .p11_pool import nbh

KERNELS = ['333', '222', '311', '131', '113', '331', '313', '133']


def ks(kernel):
  r = [int(c) for c in kernel]
  return r[:1] if len(set(r)) == 1 else r


def tabk(kernel, k):
  K = len(LUT[kernel])
  return tm.Tab(tm.Table.make([K], [tm.Fraction(x) for x in LUT[kernel]]), k)


def setup(F, D=4, B=None, **kw):
  o = Oct(dr.interp(), D, F, B=B)
  set_models(octree_models(D, F, C=small, K=lambda s: 1 + (s + 1) % 2, MB=10 ** 9, G=lambda s: 1 + s % 2))
  return o


def unlimited(o, rows, kdim, cin):
  """max_buffer large enough for a single chunk (chunks are P09's matter)."""
  MB = sym('MB')
  tm.Ctx.facts.append(MB - rows * kdim * cin)
  tm.Ctx.bump()
  return MB


def out_rows(o, d, stride, nempty):
  """Rows of the compact convolution result."""
  return o.N(d - 1, True) if stride == 2 else o.N(d, nempty)


def conv_spec(o, d, kernel, stride, nempty, C, xf, wf, bias=None):
  def row(j, c2):
    k, v = fresh(P(len(LUT[kernel]))), fresh(C)
    idx = nbh(o, d, j, tabk(kernel, P(k)), stride, nempty)
    r = mk_sum([k, v], mul(mul(Ge(idx), xf(idx, P(v))), wf(P(k), P(v), c2)))
    return r + bias(c2) if bias else r

  def spec(i, c2):
    if stride == 2 and not nempty:
      return Ite(Ge(o.ch(d - 1, i)), row(o.ch(d - 1, i), c2), P(0))
    return row(i, c2)
  return spec


def deconv_spec(o, d, kernel, stride, nempty, C, xf, wf, bias=None):
  """Transpose: out[nb[i,k]] += x[i] . w[k]^T."""
  dn = d + 1 if stride == 2 else d
  rows = o.N(d, True) if stride == 2 else o.N(d, nempty)

  def src(i):
    return o.sel(d, i) if stride == 2 and not nempty else i

  def spec(n, c2):
    i, k, v = fresh(rows), fresh(P(len(LUT[kernel]))), fresh(C)
    idx = nbh(o, dn, P(i), tabk(kernel, P(k)), stride, nempty)
    r = mk_sum([i, k, v], mulall([Ge(idx), Eq(idx - n), xf(src(P(i)), P(v)), wf(P(k), c2, P(v))]))
    return r + bias(c2) if bias else r
  return spec


mulall = tm.mulall


def bias_of(m, use, K):
  if use:
    setp(m, 'bias', feat('bb', [K]))
    return lambda c: App('bb', c)
  return None


def conv(F, d, kernel, stride, nempty, direct, bias):
  def f():
    o = setup(F)
    C, K = sym('C'), sym('K')
    kd = len(LUT[kernel])
    rows = out_rows(o, d, stride, nempty)
    MB = unlimited(o, rows, kd, C)
    m = call(anchor('ocnn.nn:OctreeConv'), S(C), S(K), ks(kernel), stride, nempty,
             direct_method=direct, use_bias=bias, max_buffer=S(MB))
    setp(m, 'weights', feat('w', [kd, C, K]))
    b = bias_of(m, bias, K)
    x = feat('x', [o.N(d, nempty), C])
    r = call(m, x, o.obj, d)
    do = d - 1 if stride == 2 else d
    check_equal(r, [o.N(do, nempty), K],
                conv_spec(o, d, kernel, stride, nempty, C, lambda i, c: App('x', i, c),
                          lambda k, a, b: App('w', k, a, b), b),
                'out[n] = sum_k x[neighbour(n,k)] W[k] (+ bias)', dtype='float32')
  return f


def deconv(F, d, kernel, stride, nempty, direct, bias):
  def f():
    o = setup(F)
    C, K = sym('C'), sym('K')
    kd = len(LUT[kernel])
    rows = o.N(d, True) if stride == 2 else o.N(d, nempty)
    MB = unlimited(o, rows, kd, K)
    m = call(anchor('ocnn.nn:OctreeDeconv'), S(C), S(K), ks(kernel), stride, nempty,
             direct_method=direct, use_bias=bias, max_buffer=S(MB))
    setp(m, 'weights', feat('w', [kd, K, C]))
    b = bias_of(m, bias, K)
    x = feat('x', [o.N(d, nempty), C])
    r = call(m, x, o.obj, d)
    do = d + 1 if stride == 2 else d
    check_equal(r, [o.N(do, nempty), K],
                deconv_spec(o, d, kernel, stride, nempty, C, lambda i, c: App('x', i, c),
                            lambda k, a, b: App('w', k, a, b), b),
                'out[neighbour(n,k)] += x[n] W[k]^T (+ bias)', dtype='float32')
  return f


def dwconv(F, d, kernel, stride, nempty, bias):
  def f():
    o = setup(F)
    C = sym('C')
    kd = len(LUT[kernel])
    rows = out_rows(o, d, stride, nempty)
    MB = unlimited(o, rows, kd, C)
    m = call(anchor('ocnn.nn:OctreeDWConv'), S(C), ks(kernel), stride, nempty,
             use_bias=bias, max_buffer=S(MB))
    setp(m, 'weights', feat('w', [kd, 1, C]))
    b = bias_of(m, bias, C)
    x = feat('x', [o.N(d, nempty), C])
    r = call(m, x, o.obj, d)
    do = d - 1 if stride == 2 else d

    def row(j, c):
      k = fresh(P(kd))
      idx = nbh(o, d, j, tabk(kernel, P(k)), stride, nempty)
      v = mk_sum([k], mulall([Ge(idx), App('x', idx, c), App('w', P(k), P(0), c)]))
      return v + b(c) if b else v

    def spec(i, c):
      if stride == 2 and not nempty:
        return Ite(Ge(o.ch(d - 1, i)), row(o.ch(d - 1, i), c), P(0))
      return row(i, c)
    check_equal(r, [o.N(do, nempty), C], spec,
                'depth-wise: out[n,c] = sum_k x[neighbour(n,k),c] W[k,c] (+ bias)', dtype='float32')
  return f


def gconv(F, d, kernel, stride, nempty, bias, G):
  def f():
    o = setup(F)
    c1, k1 = sym('C'), sym('K')
    C, K = c1 * G, k1 * G
    kd = len(LUT[kernel])
    tm.Ctx.facts.append(P(200000000) - out_rows(o, d, stride, nempty) * kd * c1)
    tm.Ctx.bump()
    m = call(anchor('ocnn.nn:OctreeGroupConv'), S(C), S(K), ks(kernel), stride, nempty,
             use_bias=bias, group=G)
    for g, cv in enumerate(dr.interp().call(dr.interp().getattr(m.get('convs'), '__iter__'), (), {})
                           if False else [dr.interp().getitem(m.get('convs'), g) for g in range(G)]):
      setp(cv, 'weights', feat('w%d' % g, [kd, c1, k1]))
      if bias:
        setp(cv, 'bias', feat('bb%d' % g, [k1]))
    x = feat('x', [o.N(d, nempty), C])
    r = call(m, x, o.obj, d)
    do = d - 1 if stride == 2 else d
    rows = o.N(do, nempty)
    check_dims(r, [rows, K], 'group convolution')
    for g in range(G):
      part = tn.getitem(r, (slice(None), slice(S(k1 * g), S(k1 * (g + 1)))))
      check_equal(part, [rows, k1],
                  conv_spec(o, d, kernel, stride, nempty, c1,
                            lambda i, c, g=g: App('x', i, c + c1 * g),
                            lambda k, a, b, g=g: App('w%d' % g, k, a, b),
                            (lambda c, g=g: App('bb%d' % g, c)) if bias else None),
                  'group %d convolves its own channel slice' % g)
  return f


def octree2col(F, d, kernel, stride, nempty):
  def f():
    o = setup(F)
    C = sym('C')
    kd = len(LUT[kernel])
    x = feat('x', [o.N(d, nempty), C])
    r = call(anchor('ocnn.nn:octree2col'), x, o.obj, d, kernel, stride, nempty)

    def spec(i, k, c):
      idx = nbh(o, d, i, tabk(kernel, k), stride, nempty)
      return mul(Ge(idx), App('x', idx, c))
    rows = out_rows(o, d, stride, nempty) if not (stride == 2 and not nempty) else tm.Div(o.N(d), P(8))
    check_equal(r, [rows, kd, C], spec, 'octree2col gathers x[neighbour(n,k)], zero if missing',
                dtype='float32', enum=0)
    y = feat('y', [rows, kd, C])
    r = call(anchor('ocnn.nn:col2octree'), y, o.obj, d, kernel, stride, nempty)

    def spec2(n, c):
      i, k = fresh(P(rows)), fresh(P(kd))
      idx = nbh(o, d, P(i), tabk(kernel, P(k)), stride, nempty)
      return mk_sum([i, k], mulall([Ge(idx), Eq(idx - n), App('y', P(i), P(k), c)]))
    check_equal(r, [o.N(d, nempty), C], spec2, 'col2octree is the adjoint of octree2col',
                dtype='float32', enum=0)
  return f


for _k in KERNELS:
  for _s in (1, 2):
    for _n in (False, True):
      _t = 'k=%s s=%d nempty=%d' % (_k, _s, _n)
      for _di in (False, True):
        ob('P08', 'conv %s direct=%d' % (_t, _di))(conv(2, 4, _k, _s, _n, _di, False))
        ob('P08', 'deconv %s direct=%d' % (_t, _di))(deconv(2, 3, _k, _s, _n, _di, False))
      ob('P08', 'dwconv ' + _t)(dwconv(2, 4, _k, _s, _n, False))
      ob('P08', 'octree2col ' + _t)(octree2col(2, 4, _k, _s, _n))
for _k in ('333', '222'):
  for _s in (1, 2):
    for _n in (False, True):
      _t = 'k=%s s=%d nempty=%d' % (_k, _s, _n)
      for _di in (False, True):
        ob('P08', 'conv bias %s direct=%d' % (_t, _di))(conv(2, 4, _k, _s, _n, _di, True))
        ob('P08', 'deconv bias %s direct=%d' % (_t, _di))(deconv(2, 3, _k, _s, _n, _di, True))
        # layers at the full depth boundary
        ob('P08', 'conv full layer %s direct=%d' % (_t, _di))(conv(2, 2, _k, _s, _n, _di, False))
        ob('P08', 'conv first sparse layer %s direct=%d' % (_t, _di))(conv(2, 3, _k, _s, _n, _di, True))
        ob('P08', 'deconv full layer %s direct=%d' % (_t, _di))(deconv(2, 1, _k, _s, _n, _di, False))
        ob('P08', 'deconv first sparse layer %s direct=%d' % (_t, _di))(deconv(2, 2, _k, _s, _n, _di, True))
      ob('P08', 'dwconv bias ' + _t)(dwconv(2, 3, _k, _s, _n, True))
      for _g in (1, 2, 3):
        for _b in (False, True):
          ob('P08', 'gconv %s groups=%d bias=%d' % (_t, _g, _b))(gconv(2, 4, _k, _s, _n, _b, _g))
