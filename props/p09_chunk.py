"""P09: memory limits and execution strategy never change a convolution."""
from .common import *
from .p08_conv import ks, conv_spec, deconv_spec, KERNELS, unlimited, out_rows, setup
from .p11_pool import nbh


def fulloct(B, F=1):
  o = Oct(dr.interp(), F, F, B=B)
  set_models(octree_models(F, F, B))
  return o


def chunked(op, B, d, kernel, stride, nempty, h, slack=0, C=2, K=3):
  """Weights, input and rows concrete; h rows fit into the buffer."""
  def f():
    o = fulloct(B, 2)
    kd = len(LUT[kernel])
    cin = {'conv': C, 'deconv': K, 'dw': C}[op]
    MB = h * kd * cin + slack
    x = feat('x', [o.N(d, nempty), C])
    if op == 'dw':
      m = call(anchor('ocnn.nn:OctreeDWConv'), C, ks(kernel), stride, nempty, max_buffer=MB)
      setp(m, 'weights', feat('w', [kd, 1, C]))
    else:
      cls = anchor('ocnn.nn:OctreeConv' if op == 'conv' else 'ocnn.nn:OctreeDeconv')
      m = call(cls, C, K, ks(kernel), stride, nempty, max_buffer=MB)
      setp(m, 'weights', feat('w', [kd, C, K] if op == 'conv' else [kd, K, C]))
    r = call(m, x, o.obj, d)
    xf, wf = (lambda i, c: App('x', i, c)), (lambda k, a, b: App('w', k, a, b))
    if op == 'dw':
      def spec(i, c):
        v = tm.addn([(lambda idx: mul(mul(Ge(idx), App('x', idx, c)), App('w', P(k), P(0), c)))(
            nbh(o, d, i, kk, stride, nempty)) for k, kk in enumerate(LUT[kernel])])
        return v
      do = d - 1 if stride == 2 else d
      Ko = C
    elif op == 'conv':
      spec, do, Ko = conv_spec(o, d, kernel, stride, nempty, P(C), xf, wf), d - (stride == 2), K
    else:
      spec, do, Ko = deconv_spec(o, d, kernel, stride, nempty, P(C), xf, wf), d + (stride == 2), K
    check_equal(r, [o.N(do, nempty), Ko], spec,
                'result with a buffer of %d elements equals the unlimited result' % MB, samples=400)
  return f


for _op in ('conv', 'deconv', 'dw'):
  for _k, _s in (('222', 1), ('222', 2), ('311', 1), ('333', 1), ('131', 2)):
    for _n in (False, True):
      for _h in (1, 3, 5, 8):
        if _op == 'dw' and _h == 8:
          continue
        _d = 0 if (_op == 'deconv' and _s == 2) else 1
        _rows = 3 if _s == 2 else 24
        if _h >= _rows:
          continue
        ob('P09', '%s k=%s s=%d nempty=%d rows=%d chunk=%d' % (_op, _k, _s, _n, _rows, _h))(
            chunked(_op, 3, _d, _k, _s, _n, _h))
  for _sl in (1, 7):
    ob('P09', '%s uneven buffer +%d' % (_op, _sl))(chunked(_op, 1, 1, '222', 1, False, 3, _sl))
    ob('P09', '%s uneven buffer nempty +%d' % (_op, _sl))(chunked(_op, 1, 1, '222', 1, True, 3, _sl))
  ob('P09', '%s buffer smaller than one row' % _op)(chunked(_op, 1, 1, '222', 1, False, 0, 3))


def strategies(op, kernel, stride, nempty, bias):
  """direct_method True / False agree for every octree."""
  def f():
    o = setup(2)
    C, K = sym('C'), sym('K')
    kd = len(LUT[kernel])
    d = 4 if op == 'conv' else 3
    rows = out_rows(o, d, stride, nempty) if op == 'conv' else (
        o.N(d, True) if stride == 2 else o.N(d, nempty))
    cin = C if op == 'conv' else K
    MB = unlimited(o, rows, kd, cin)
    cls = anchor('ocnn.nn:OctreeConv' if op == 'conv' else 'ocnn.nn:OctreeDeconv')
    out = []
    x = feat('x', [o.N(d, nempty), C])
    for direct in (True, False):
      m = call(cls, S(C), S(K), ks(kernel), stride, nempty, direct, bias, S(MB))
      setp(m, 'weights', feat('w', [kd, C, K] if op == 'conv' else [kd, K, C]))
      if bias:
        setp(m, 'bias', feat('bb', [K]))
      out.append(call(m, x, o.obj, d))
    check_equal(out[0], out[1]._dims, lambda i, c: out[1]._at((i, c)),
                'the direct and the buffered method agree')
  return f


for _op in ('conv', 'deconv'):
  for _k in KERNELS:
    for _s in (1, 2):
      for _n in (False, True):
        ob('P09', '%s strategies k=%s s=%d nempty=%d' % (_op, _k, _s, _n))(
            strategies(_op, _k, _s, _n, _k in ('333', '222')))
