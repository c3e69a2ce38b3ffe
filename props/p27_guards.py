"""P27: mismatched data and unsupported arguments are rejected.

Every obligation calls an operator with a size that is definitely wrong (one
symbolic surplus R >= 1 for all octrees at once) and requires that *every*
path of the analysed code ends in an error.
"""
from .common import *

D, F = 4, 2


def setup():
  o = Oct(dr.interp(), D, F)
  set_models(octree_models(D, F, R=small, Q=small, C=small, K=small))
  return o, sym('R')


def wrong(n, how, R):
  return {'more': P(n) + R, 'fewer': P(n) - 1, 'double': P(n) * 2, 'none': P(0)}[how]


def g(name, how, fn, tier='quick'):
  def f():
    o, R = setup()
    fn(o, lambda n: wrong(n, how, R))
  ob('P27', '%s (%s rows)' % (name, how) if how else name, tier=tier)(f)


def kdim(k):
  return [int(c) for c in k]


# ---------------------------------------------------------------- convolutions
def conv_rows(cls, kernel, stride, nempty, direct):
  def fn(o, w):
    d = 3
    kw = {} if cls in ('OctreeDWConv', 'OctreeGroupConv') else {'direct_method': direct}
    a = (4,) if cls == 'OctreeDWConv' else (4, 6)
    if cls == 'OctreeGroupConv':
      kw['group'] = 2
    m = call(anchor('ocnn.nn:' + cls), *a, kdim(kernel), stride, nempty, **kw)
    n = o.N(d, nempty)
    if not (direct and kw):
      rejected(lambda: call(m, feat('x', [w(n), 4]), o.obj, d),
               '%s rejects data with a wrong number of rows' % cls)
    else:
      rejected(lambda: call(m, feat('x', [w(n), 4]), o.obj, d),
               '%s (direct) rejects data with a wrong number of rows' % cls)
  return fn


def conv_channels(cls, stride, nempty, direct, extra):
  def fn(o, w):
    d = 3
    kw = {} if cls in ('OctreeDWConv', 'OctreeGroupConv') else {'direct_method': direct}
    a = (4,) if cls == 'OctreeDWConv' else (4, 6)
    if cls == 'OctreeGroupConv':
      kw['group'] = 2
    m = call(anchor('ocnn.nn:' + cls), *a, [3], stride, nempty, **kw)
    rejected(lambda: call(m, feat('x', [o.N(d, nempty), 4 + extra]), o.obj, d),
             '%s rejects data with a wrong number of channels' % cls)
  return fn


for _c in ('OctreeConv', 'OctreeDeconv', 'OctreeDWConv', 'OctreeGroupConv'):
  for _s in (1, 2):
    for _n in (False, True):
      for _d in ((False, True) if _c in ('OctreeConv', 'OctreeDeconv') else (False,)):
        _t = '%s s=%d nempty=%d direct=%d' % (_c, _s, _n, _d)
        if not _d:
          for _h in ('more', 'fewer', 'double'):
            g(_t, _h, conv_rows(_c, '3', _s, _n, _d))
          g(_t + ' k=222', 'more', conv_rows(_c, '2', _s, _n, _d))
        for _e in (1, -1, 4):
          g(_t + ' channels%+d' % _e, None, conv_channels(_c, _s, _n, _d, _e))


# ------------------------------------------- interpolation, alignment, pooling
def queries(o, Q):
  declare('qb', 'i', 0, o.B - 1)
  declare('qx', 'f', -1, 1)
  return columns('q', Q, [lambda i, k=k: App('qx', i, P(k)) for k in range(3)] +
                 [lambda i: App('qb', i)])


def interp(name, d, nempty):
  def fn(o, w):
    rejected(lambda: call(anchor('ocnn.nn:' + name), feat('x', [w(o.N(d, nempty)), 2]), o.obj, d,
                          queries(o, sym('Q')), nempty),
             name + ' rejects data with a wrong number of rows')
  return fn


def interp_mod(method, nempty):
  def fn(o, w):
    d = 3
    m = call(anchor('ocnn.nn:OctreeInterp'), method, nempty)
    rejected(lambda: call(m, feat('x', [w(o.N(d, nempty)), 2]), o.obj, d, queries(o, sym('Q'))),
             'OctreeInterp rejects data with a wrong number of rows')
  return fn


def upsample(method, nempty, d, target):
  def fn(o, w):
    m = call(anchor('ocnn.nn:OctreeUpsample'), method, nempty)
    a = () if target is None else (target,)
    rejected(lambda: call(m, feat('x', [w(o.N(d, nempty)), 2]), o.obj, d, *a),
             'OctreeUpsample rejects data with a wrong number of rows')
  return fn


def up_target(method, nempty):
  def fn(o, w):
    m = call(anchor('ocnn.nn:OctreeUpsample'), method, nempty)
    rejected(lambda: call(m, feat('x', [o.N(4, nempty), 2]), o.obj, 4, 3),
             'OctreeUpsample rejects a coarser target level')
  return fn


def up_near(nempty):
  def fn(o, w):
    rejected(lambda: call(anchor('ocnn.nn.octree_interp:octree_nearest_upsample'), feat('x', [w(o.N(3, nempty)), 2]),
                          o.obj, 3, nempty), 'nearest upsampling rejects a wrong number of rows')
  return fn


def align(nempty):
  def fn(o, w):
    q = Oct(dr.interp(), D, F, pre='t', B=o.B)
    set_models(octree_models(D, F, pre=('', 't'), R=small))
    rejected(lambda: call(anchor('ocnn.nn:octree_align'), feat('x', [w(o.N(3, nempty)), 2]), o.obj, q.obj,
                          3, nempty), 'octree_align rejects a wrong number of rows')
  return fn


for _h in ('more', 'fewer', 'double'):
  for _n in (False, True):
    _t = ' nempty=%d' % _n
    for _d in (1, 3):
      g('octree_nearest_pts d=%d' % _d + _t, _h, interp('octree_nearest_pts', _d, _n))
      g('octree_linear_pts d=%d' % _d + _t, _h, interp('octree_linear_pts', _d, _n))
    for _m in ('nearest', 'linear'):
      g('OctreeInterp %s' % _m + _t, _h, interp_mod(_m, _n))
    g('OctreeUpsample linear' + _t, _h, upsample('linear', _n, 3, None))
    g('OctreeUpsample nearest' + _t, _h, upsample('nearest', _n, 2, 4))
    g('octree_nearest_upsample' + _t, _h, up_near(_n))
    g('octree_align' + _t, _h, align(_n))
for _n in (False, True):
  for _m in ('nearest', 'linear'):
    g('OctreeUpsample %s coarser target nempty=%d' % (_m, _n), None, up_target(_m, _n))


def rows(name, args, nempty, d=3, what=None):
  def fn(o, w):
    rejected(lambda: call(anchor('ocnn.nn:' + name), feat('x', [w(o.N(d, nempty)), 2]), o.obj, d, *args),
             (what or name) + ' rejects data with a wrong number of rows')
  return fn


for _h in ('more', 'double'):
  g('octree_pad', _h, rows('octree_pad', (), True))
  g('octree_depad', _h, rows('octree_depad', (), False))
  for _n in (False, True):
    g('octree_max_pool nempty=%d' % _n, _h, rows('octree_max_pool', (_n,), _n))
    g('octree_global_pool nempty=%d' % _n, _h, rows('octree_global_pool', (_n,), _n))
    g('octree2voxel nempty=%d' % _n, _h, rows('octree2voxel', (_n,), _n))


def norm(cls, nempty):
  def fn(o, w):
    a = (4, 2) if cls == 'OctreeGroupNorm' else (4,)
    m = call(anchor('ocnn.nn:' + cls), *a, nempty=nempty)
    rejected(lambda: call(m, feat('x', [w(o.N(3, nempty)), 4]), o.obj, 3),
             cls + ' rejects data with a wrong number of rows')
  return fn


for _c in ('OctreeGroupNorm', 'OctreeInstanceNorm'):
  for _n in (False, True):
    for _h in ('more', 'double'):
      g('%s nempty=%d' % (_c, _n), _h, norm(_c, _n))


# ----------------------------------------------------- unsupported arguments
def bad(name, fn, what):
  g(name, None, lambda o, w: rejected(lambda: fn(o), what))


for _k in ('111', '444', '555', '33', '3', '322', '', '3333'):
  for _n in (False, True):
    bad('get_neigh kernel %r nempty=%d' % (_k, _n),
        lambda o, k=_k, n=_n: o.obj.m('get_neigh', 3, k, 1, n), 'kernel %r is rejected' % _k)
for _s in (0, 3, 4, -1):
  for _k in ('333', '222'):
    bad('get_neigh stride %d kernel %s' % (_s, _k),
        lambda o, s=_s, k=_k: o.obj.m('get_neigh', 3, k, s, False), 'stride %d is rejected' % _s)
for _c in ('OctreeConv', 'OctreeDeconv'):
  for _k in ([4], [5, 5, 5], [1, 2, 3], [2, 2, 3]):
    bad('%s kernel %s' % (_c, _k),
        lambda o, c=_c, k=_k: call(call(anchor('ocnn.nn:' + c), 4, 4, k), feat('x', [o.N(3), 4]), o.obj, 3),
        'an unsupported kernel is rejected')
  bad('%s stride 3' % _c,
      lambda o, c=_c: call(call(anchor('ocnn.nn:' + c), 4, 4, [3], 3), feat('x', [o.N(3), 4]), o.obj, 3),
      'an unsupported stride is rejected')
for _d in (F + 1, D, D + 3):
  bad('octree_grow_full depth %d' % _d, lambda o, d=_d: o.obj.m('octree_grow_full', d),
      'a full level beyond the full depth is rejected')
for _g in (3, 8):
  bad('OctreeGroupConv group %d' % _g, lambda o, g=_g: call(anchor('ocnn.nn:OctreeGroupConv'), 4, 4, [3], group=g),
      'channels that are no multiple of the groups are rejected')
  bad('OctreeGroupNorm group %d' % _g, lambda o, g=_g: call(anchor('ocnn.nn:OctreeGroupNorm'), 4, g),
      'channels that are no multiple of the groups are rejected')
bad('OctreeGroupConv out channels', lambda o: call(anchor('ocnn.nn:OctreeGroupConv'), 4, 6, [3], group=4),
    'output channels that are no multiple of the groups are rejected')


# ------------------------------------------------------------- point clouds
def pts(shapes):
  def f():
    R, n = sym('R'), sym('n')
    set_models([dict(R=lambda: 2, n=lambda: 5), dict(R=lambda: 1, n=lambda: 3)])
    names = ('points', 'normals', 'features', 'labels', 'batch_id')
    kw = {}
    for k, v in shapes(n, R).items():
      kw[k] = feat(k, v, 'int64' if k == 'batch_id' else 'float32')
    rejected(lambda: call(anchor('ocnn.octree:Points'), **kw), 'the point cloud is rejected')
  return f


BAD = {
    'flat points': lambda n, R: dict(points=[n * 3]),
    'planar points': lambda n, R: dict(points=[n, 2]),
    'four columns': lambda n, R: dict(points=[n, 4]),
    'normals rows': lambda n, R: dict(points=[n, 3], normals=[n + R, 3]),
    'normals columns': lambda n, R: dict(points=[n, 3], normals=[n, 2]),
    'normals flat': lambda n, R: dict(points=[n, 3], normals=[n * 3]),
    'features rows': lambda n, R: dict(points=[n, 3], features=[n + R, 4]),
    'features fewer rows': lambda n, R: dict(points=[n + R, 3], features=[n, 4]),
    'features flat': lambda n, R: dict(points=[n, 3], features=[n]),
    'labels rows': lambda n, R: dict(points=[n, 3], labels=[n + R]),
    'labels rows 2D': lambda n, R: dict(points=[n, 3], labels=[n + R, 1]),
    'labels 3D': lambda n, R: dict(points=[n, 3], labels=[n, 1, 1]),
    'batch rows': lambda n, R: dict(points=[n, 3], batch_id=[n + R, 1]),
    'batch rows 1D': lambda n, R: dict(points=[n, 3], batch_id=[n + R]),
    'batch columns': lambda n, R: dict(points=[n, 3], batch_id=[n, 2]),
}
for _k, _v in BAD.items():
  ob('P27', 'Points ' + _k)(pts(_v))


def scale0():
  n = sym('n')
  set_models([dict(n=lambda: 3)])
  p = call(anchor('ocnn.octree:Points'), feat('points', [n, 3]))
  z = tn.from_list([1.0, 0.0, 2.0], 'float32')
  rejected(lambda: call(dr.interp().getattr(p, 'scale'), z), 'a zero scale factor is rejected')


ob('P27', 'Points.scale by zero')(scale0)


def flipx():
  n = sym('n')
  set_models([dict(n=lambda: 3)])
  p = call(anchor('ocnn.octree:Points'), feat('points', [n, 3]))
  rejected(lambda: call(dr.interp().getattr(p, 'flip'), 'w'), 'an unknown axis is rejected')


ob('P27', 'Points.flip unknown axis')(flipx)


# ------------------------------------------------------------ other structures
def merge(bad_at, K, what):
  def f():
    os_ = []
    for i in range(K):
      D_, F_, dev = 4, 2, 'cpu'
      if i == bad_at:
        D_, F_, dev = {'depth': (5, 2, 'cpu'), 'full_depth': (4, 3, 'cpu'), 'device': (4, 2, 'cuda:0')}[what]
      os_.append(Oct(dr.interp(), D_, F_, B=1, pre='abcd'[i], neigh=False, dev=dev))
    rejected(lambda: call(anchor('ocnn.octree:merge_octrees'), [o.obj for o in os_]),
             'octrees of another %s are rejected' % what)
  return f


for _K in (2, 3):
  for _i in range(_K):
    for _w in ('depth', 'full_depth', 'device'):
      ob('P27', 'merge %d octrees, other %s at %d' % (_K, _w, _i))(merge(_i, _K, _w))


def build_batch():
  n = sym('n')
  set_models([dict(n=lambda: 3)])
  p = call(anchor('ocnn.octree:Points'), feat('points', [n, 3]), batch_size=2)
  o = call(anchor('ocnn.octree:Octree'), 4, 2, 3)
  rejected(lambda: o.m('build_octree', p), 'a point cloud of another batch size is rejected')


ob('P27', 'build_octree batch size')(build_batch)


def interleave(num):
  def f():
    rejected(lambda: call(anchor('ocnn.utils:resize_with_last_val'), [1, 2, 3, 4, 5], num),
             'a list that is too long is rejected')
  return f


for _i in (1, 3):
  ob('P27', 'resize_with_last_val num=%d' % _i)(interleave(_i))


def autoenc(cls):
  def f():
    dr.Mode.kind, dr.Mode.havoc = 'shape', 1
    try:
      o = Oct(dr.interp(), 4, 2, feats=('normals', 'points'))
      m = call(anchor('ocnn.models:' + cls), 5, 3, 4, 2, 'ND')
      rejected(lambda: call(dr.interp().getattr(m, 'encoder'), o.obj),
               '%s rejects input features of another width' % cls)
    finally:
      dr.Mode.reset()
  return f


for _c in ('AutoEncoder', 'OUNet'):
  ob('P27', _c + ' input width')(autoenc(_c))


# ------------------------------------------------------------ point clouds
def cloud_rows(attr, how, rank1):
  def f():
    N, R = sym('N'), sym('R')
    set_models([{'N': small, 'R': small}])
    n = wrong(N, how, R)
    w = {'normals': 3, 'features': 4, 'labels': 1, 'batch_id': 1}[attr]
    dt = 'int64' if attr in ('labels', 'batch_id') else 'float32'
    d = {'points': feat('pts', [N, 3]), attr: feat('att', [n] if rank1 else [n, w], dt)}
    rejected(lambda: call(anchor('ocnn.octree:Points'), **d),
             'a cloud with another number of %s than of points is rejected' % attr)
  return f


for _a in ('normals', 'features', 'labels', 'batch_id'):
  for _h in ('more', 'fewer', 'double'):
    for _r in ((False, True) if _a in ('labels', 'batch_id') else (False,)):
      ob('P27', 'Points with %s %s rows%s' % (_h, _a, ' (vector)' if _r else ''))(cloud_rows(_a, _h, _r))


def cloud_cols(attr, cols):
  def f():
    N = sym('N')
    set_models([{'N': small}])
    d = {'points': feat('pts', [N, 3])}
    d[attr] = feat('att', [N] + cols, 'int64' if attr == 'batch_id' else 'float32')
    rejected(lambda: call(anchor('ocnn.octree:Points'), **d), '%s of a wrong shape are rejected' % attr)
  return f


for _a, _c in (('points', [2]), ('points', [4]), ('points', []), ('points', [3, 1]), ('normals', [2]), ('normals', [4]),
               ('normals', []), ('features', []), ('features', [2, 2]), ('labels', [2, 2]), ('batch_id', [2])):
  ob('P27', 'Points with %s of shape %s' % (_a, ['N'] + _c))(cloud_cols(_a, _c))


def example(n):
  def f():
    set_models([{}])
    rejected(lambda: call(anchor('ocnn.utils:build_example_octree'), 3, 2, n), 'an example of %d points is rejected' % n)
  return f


for _n in (-1, 0, 4, 7):
  ob('P27', 'example octree of %d points' % _n)(example(_n))
