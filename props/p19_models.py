"""P19: construction and output shapes of networks and building blocks."""
from .common import *


def run(name, f, kind='shape'):
  def g():
    dr.Mode.kind = dr.Mode.kind or kind
    try:
      f()
    finally:
      dr.Mode.reset()
  return ob('P19', name, timeout=300)(g)


def octree(D, F, **kw):
  # sizes below the buffer limit: P09 decides that larger ones are equivalent
  sym('B', 2, 100)
  for d in range(F, D + 1):
    sym('E%d' % d, 1, 200)
  o = Oct(dr.interp(), D, F, **kw)
  set_models(octree_models(D, F, Q=small, CF=lambda s: 2))
  return o


def out(t, dims, what):
  check_equal(t, dims, None, what)
  ok(what)


def data(o, d, C, nempty):
  return feat('x', [o.N(d, nempty), C])


def query(o, Q):
  declare('qb', 'i', 0, o.B - 1)
  declare('qx', 'f', -1, 1)
  return columns('q', Q, [lambda i, k=k: App('qx', i, P(k)) for k in range(3)] +
                 [lambda i: App('qb', i)])


def lenet(D, stages, nempty, C, K):
  def f():
    o = octree(D, 2)
    m = call(anchor('ocnn.models:LeNet'), C, K, stages, nempty)
    out(call(m, data(o, D, C, nempty), o.obj, D), [o.B, K], 'LeNet: one row per sample')
  return f


def resnet(D, stages, n, nempty, C, K):
  def f():
    o = octree(D, 2)
    m = call(anchor('ocnn.models:ResNet'), C, K, n, stages, nempty)
    out(call(m, data(o, D, C, nempty), o.obj, D), [o.B, K], 'ResNet: one row per sample')
  return f


def hrnet(D, stages, nempty, C, K):
  def f():
    o = octree(D, 2)
    m = call(anchor('ocnn.models:HRNet'), C, K, stages, nempty=nempty)
    out(call(m, data(o, D, C, nempty), o.obj, D), [o.B, K], 'HRNet: one row per sample')
  return f


def segnet(D, stages, interp, nempty, C, K):
  def f():
    o = octree(D, 2)
    Q = sym('Q')
    m = call(anchor('ocnn.models:SegNet'), C, K, stages, interp, nempty)
    out(call(m, data(o, D, C, nempty), o.obj, D, query(o, Q)), [Q, K], 'SegNet: one row per query point')
  return f


def unet(D, interp, nempty, C, K):
  def f():
    o = octree(D, 2)
    Q = sym('Q')
    m = call(anchor('ocnn.models:UNet'), C, K, interp, nempty)
    out(call(m, data(o, D, C, nempty), o.obj, D, query(o, Q)), [Q, K], 'UNet: one row per query point')
  return f


for _ne in (False, True):
  for _D, _s in ((5, 3), (4, 2), (3, 1)):
    run('LeNet D=%d stages=%d nempty=%d' % (_D, _s, _ne), lenet(_D, _s, _ne, 3, 10))
  for _D, _s, _n in ((5, 3, 2), (5, 2, 1), (4, 2, 3)):
    run('ResNet D=%d stages=%d n=%d nempty=%d' % (_D, _s, _n, _ne), resnet(_D, _s, _n, _ne, 4, 7))
  for _D, _s in ((5, 1), (5, 2), (5, 3)):
    run('HRNet D=%d stages=%d nempty=%d' % (_D, _s, _ne), hrnet(_D, _s, _ne, 3, 5))
  for _i in ('linear', 'nearest'):
    for _D, _s in ((5, 3), (4, 1)):
      run('SegNet D=%d stages=%d %s nempty=%d' % (_D, _s, _i, _ne), segnet(_D, _s, _i, _ne, 4, 6))
    for _D in (6, 7):
      run('UNet D=%d %s nempty=%d' % (_D, _i, _ne), unet(_D, _i, _ne, 3, 4))


# ------------------------------------------------------------------ blocks
MODULES = 'ocnn.modules:'


def attr(o, n):
  return dr.interp().getattr(o, n)


def params(m, tag='p', seen=None):
  """Gives every convolution, linear and norm parameter an arbitrary value."""
  k = 0
  for name, p in named(m):
    setp(p, None, feat('%s%d' % (tag, k), list(p._dims)))
    k += 1


def named(m):
  return [(str(i), p) for i, p in enumerate(list(call(attr(m, 'parameters'))))]


def stages(m, subs, relu, x, r, dims, cls):
  """The block is the composition of its stages."""
  if dr.Mode.kind or any(n not in m.d for n, _ in subs):
    return
  for n, a in subs:
    x = call(attr(m, n), x, *a)
  t = dr.interp().import_module('torch')
  y = call(attr(t, 'relu'), x) if relu else x
  check_equal(r, dims, lambda i, c: y._at((i, c)), '%s applies its stages in order' % cls)


def conv_block(cls, sub, stride, nempty, kernel, relu):
  def f():
    o = octree(4, 2)
    d = 3
    deconv = sub == 'deconv'
    m = call(anchor(MODULES + cls), 3, 5, [int(c) for c in kernel], stride, nempty)
    params(m)
    x = feat('x', [o.N(d, nempty), 3])
    r = call(m, x, o.obj, d)
    do = d + (1 if deconv else -1) if stride == 2 else d
    stages(m, [(sub, (o.obj, d)), ('bn', ())], relu, x, r, [o.N(do, nempty), 5], cls)
    check_dims(r, [o.N(do, nempty), 5], cls)
  return f


def dense_block(cls, relu):
  def f():
    octree(3, 2)
    R = sym('R', 1, 100)
    m = call(anchor(MODULES + cls), 4, 6)
    params(m)
    x = feat('x', [R, 4])
    r = call(m, x)
    if cls == 'Conv1x1':
      v = fresh(P(4))
      check_equal(r, [R, 6], lambda i, c: mk_sum([v], mul(App('x', i, P(v)), App('p0', c, P(v)))),
                  'Conv1x1 is a matrix product per node')
    else:
      stages(m, [('fc' if 'Fc' in cls else 'conv', ()), ('bn', ())], relu, x, r, [R, 6], cls)
    check_dims(r, [R, 6], cls)
  return f


def resblock(cls, cin, cout, stride, bott, nempty):
  def f():
    o = octree(4, 2)
    d = 4
    m = call(anchor(MODULES + cls), cin, cout, stride, bott, nempty)
    r = call(m, feat('x', [o.N(d, nempty), cin]), o.obj, d)
    out(r, [o.N(d - stride + 1, nempty), cout], '%s: one row per node of the output level' % cls)
  return f


def resblocks(n, cin, cout, bott, nempty, blk, ckpt):
  def f():
    o = octree(4, 2)
    d = 3
    m = call(anchor(MODULES + 'OctreeResBlocks'), cin, cout, n, bott, nempty, anchor(MODULES + blk), ckpt)
    r = call(m, feat('x', [o.N(d, nempty), cin]), o.obj, d)
    out(r, [o.N(d, nempty), cout], 'OctreeResBlocks keep the level')
  return f


def input_feature(F, ch, nempty):
  def f():
    o = octree(4, 2, feats=('features', 'normals', 'points'))
    m = call(anchor(MODULES + 'InputFeature'), F, nempty)
    c = sum(P(ch[x]) if x != 'F' else sym('CF') for x in F.upper() if x in ch or x == 'F')
    out(call(m, o.obj), [o.N(4, nempty), c], 'InputFeature: documented channels')
  return f


for _ne in (False, True):
  for _s in (1, 2):
    for _k in ('333', '222'):
      _t = ' k=%s s=%d nempty=%d' % (_k, _s, _ne)
      run('OctreeConvBn' + _t, conv_block('OctreeConvBn', 'conv', _s, _ne, _k, False), '')
      run('OctreeConvBnRelu' + _t, conv_block('OctreeConvBnRelu', 'conv', _s, _ne, _k, True), '')
      run('OctreeDeconvBnRelu' + _t, conv_block('OctreeDeconvBnRelu', 'deconv', _s, _ne, _k, True), '')
    for _b in ('OctreeResBlock', 'OctreeResBlock2'):
      for _ci, _co, _bo in ((8, 8, 1), (8, 16, 4), (16, 4, 2)):
        run('%s %d->%d s=%d bottleneck=%d nempty=%d' % (_b, _ci, _co, _s, _bo, _ne),
            resblock(_b, _ci, _co, _s, _bo, _ne))
  for _n in (1, 3):
    for _b in ('OctreeResBlock', 'OctreeResBlock2'):
      for _c in (False, True):
        run('OctreeResBlocks n=%d %s ckpt=%d nempty=%d' % (_n, _b, _c, _ne),
            resblocks(_n, 4, 8, 2, _ne, _b, _c))
  for _F in ('ND', 'LP', 'FNDLP', 'f', 'n'):
    run('InputFeature %s nempty=%d' % (_F, _ne), input_feature(_F, {'N': 3, 'D': 1, 'L': 3, 'P': 3}, _ne))
for _m in ('Conv1x1', 'Conv1x1Bn', 'Conv1x1BnRelu', 'FcBnRelu'):
  run(_m, dense_block(_m, 'Relu' in _m), '')


# ------------------------------------------------- encoder / decoder networks
def decoded(r, o, D, F, K):
  """Documented dictionary of a decoder guided by the octree o."""
  it = dr.interp()
  lg = it.getitem(r, 'logits')
  for d in range(F, D + 1):
    out(it.getitem(lg, d), [o.N(d), 2], 'logits have one row per node of level %d' % d)
  out(it.getitem(r, 'signal'), [o.N(D, True), K], 'the signal has one row per occupied finest node')


def autoencoder(D, F, C, K, feature, feats, code):
  def f():
    dr.Mode.havoc = 1
    o = octree(D, F, feats=feats)
    kw = {} if code is None else {'code_channel': code}
    m = call(anchor('ocnn.models:AutoEncoder'), C, K, D, F, feature, **kw)
    code_ = call(attr(m, 'encoder'), o.obj)
    out(code_, [o.N(F), 64 if code is None else code], 'the shape code has one row per full level node')
    decoded(call(m, o.obj, False), o, D, F, K)
  return f


def ounet(D, F, C, K, feature, feats, two):
  def f():
    dr.Mode.havoc = 1
    o = octree(D, F, feats=feats)
    for d in range(F, D + 1):
      sym('tE%d' % d, 1, 200)
    g = Oct(dr.interp(), D, F, pre='t') if two else o
    m = call(anchor('ocnn.models:OUNet'), C, K, D, F, feature)
    decoded(call(m, o.obj, g.obj, False), g, D, F, K)
  return f


def image2shape(D, F, K):
  def f():
    dr.Mode.havoc = 1
    o = octree(D, F)
    m = call(anchor('ocnn.models:Image2Shape'), K, D, F)
    decoded(call(m, feat('img', [o.B, 3, 224, 224]), o.obj, False), o, D, F, K)
  return f


NRM, FEA = ('normals', 'points'), ('features', 'normals', 'points')
for _D, _F in ((4, 2), (5, 3), (4, 3), (3, 2)):
  run('AutoEncoder D=%d F=%d' % (_D, _F), autoencoder(_D, _F, 4, 4, 'ND', NRM, None))
  run('OUNet D=%d F=%d' % (_D, _F), ounet(_D, _F, 4, 4, 'ND', NRM, False))
  run('Image2Shape D=%d F=%d' % (_D, _F), image2shape(_D, _F, 3))
run('AutoEncoder code=16', autoencoder(4, 2, 7, 3, 'NDP', NRM, 16))
run('OUNet other target octree', ounet(4, 2, 6, 4, 'NP', NRM, True))
