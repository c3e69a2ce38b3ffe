"""Arguments that are left out take their documented values.

The harnesses name every argument.  Here they run once more, leaving out each
argument that has its documented default, and have to find the same result.
"""
from .common import *
from absint.driver import Mode, ok
from absint import driver as dr, interp as ip
from . import REG

_KERNEL = dict(kernel_size=[3], stride=1, nempty=False)
DEFAULTS = {
    'Octree2Voxel': dict(nempty=False),
    'OctreeAvgPool': dict(nempty=False),
    'OctreeConv': dict(_KERNEL, direct_method=False, use_bias=False),
    'OctreeDeconv': dict(_KERNEL, direct_method=False, use_bias=False),
    'OctreeDWConv': dict(_KERNEL, use_bias=False),
    'OctreeGroupConv': dict(_KERNEL, use_bias=False, group=1),
    'OctreeDropPath': dict(drop_prob=0.0, nempty=False, scale_by_keep=True),
    'OctreeGlobalPool': dict(nempty=False),
    'OctreeGroupNorm': dict(nempty=False),
    'OctreeInstanceNorm': dict(nempty=False),
    'OctreeInterp': dict(method='linear', nempty=False, bound_check=False, rescale_pts=True),
    'OctreeMaxPool': dict(nempty=False, return_indices=False),
    'OctreeMaxUnpool': dict(nempty=False),
    'OctreeUpsample': dict(method='linear', nempty=False),
    'OctreeUpsample.forward': dict(target_depth=None),
    'OctreeDropPath.forward': dict(batch_id=None),
    'col2octree': dict(kernel_size='333', stride=1, nempty=False),
    'octree2col': dict(kernel_size='333', stride=1, nempty=False),
    'octree2voxel': dict(nempty=False),
    'octree_align': dict(nempty=False),
    'octree_avg_pool': dict(stride=2, nempty=False),
    'octree_global_pool': dict(nempty=False),
    'octree_linear_pts': dict(nempty=False, bound_check=False),
    'octree_nearest_pts': dict(nempty=False, bound_check=False),
    'octree_max_pool': dict(nempty=False, return_indices=False),
    'octree_max_unpool': dict(nempty=False),
    'octree_nearest_upsample': dict(nempty=False),
    'octree_pad': dict(val=0.0),
    'Octree.__init__': dict(full_depth=2, batch_size=1, device='cpu'),
    'Octree': dict(full_depth=2, batch_size=1, device='cpu'),
    'Octree.batch_id': dict(nempty=False),
    'Octree.get_input_feature': dict(nempty=False),
    'Octree.get_neigh': dict(kernel='333', stride=1, nempty=False),
    'Octree.key': dict(nempty=False),
    'Octree.octree_grow': dict(update_neigh=True),
    'Octree.octree_grow_full': dict(update_neigh=True),
    'Octree.search_key': dict(nempty=False),
    'Octree.search_xyzb': dict(nempty=False),
    'Octree.to_points': dict(rescale=True),
    'Octree.xyzb': dict(nempty=False),
    'Points': dict(normals=None, features=None, labels=None, batch_id=None, batch_size=1),
    'Points.clip': dict(min=-1.0, max=1.0, esp=0.01),
    'Points.inbox_mask': dict(bbmin=-1.0, bbmax=1.0),
    'Points.normalize': dict(scale=1.0),
    'Points.orient_normal': dict(axis='x'),
    'init_octree': dict(full_depth=2, batch_size=1, device='cpu'),
    'key2xyz': dict(depth=16),
    'xyz2key': dict(b=None, depth=16),
    'merge_points': dict(update_batch_info=True),
    'cumsum': dict(exclusive=False),
    'scatter_add': dict(dim=-1, out=None, dim_size=None),
    'resize_with_last_val': dict(num=3),
    'LeNet': dict(nempty=False),
    'ResNet': dict(nempty=False),
    'HRNet': dict(stages=3, interp='linear', nempty=False),
    'SegNet': dict(interp='linear', nempty=False),
    'UNet': dict(interp='linear', nempty=False),
    'AutoEncoder': dict(full_depth=2, feature='ND', code_channel=64),
    'OUNet': dict(full_depth=2, feature='ND'),
    'OUNet.forward': dict(octree_out=None, update_octree=False),
    'Image2Shape': dict(full_depth=2, code_channel=32),
    'Image2Shape.forward': dict(octree=None, update_octree=False),
    'Conv1x1': dict(use_bias=False),
    'InputFeature': dict(feature='NDF', nempty=False),
    'OctreeResBlock': dict(stride=1, bottleneck=4, nempty=False),
    'OctreeResBlock2': dict(stride=1, bottleneck=1, nempty=False),
    'OctreeResBlocks': dict(bottleneck=4, nempty=False, use_checkpoint=False),
    'OctreeConvBn': dict(_KERNEL),
    'OctreeConvBnRelu': dict(_KERNEL),
    'OctreeDeconvBnRelu': dict(_KERNEL),
}
_dropped = []


def _same(v, d):
  if isinstance(v, (T, tm.Poly)):
    return False
  return type(v) is type(d) and v == d


def _omit(f, a, k):
  g, skip = f, 0
  if isinstance(f, ip.BoundMethod):
    g, skip = f.f, 1
  name = getattr(g, 'qual', '')
  part = name.split('.')
  name = '.'.join(part[-2:]) if len(part) > 1 and part[-2][:1].isupper() else part[-1]
  if isinstance(f, ip.IClass):
    name = f.name
    g, skip = f.lookup('__init__'), 1
  elif isinstance(f, ip.IInstance):
    name = f.cls.name + '.forward'
    g, skip = f.cls.lookup('forward'), 1
  doc = DEFAULTS.get(name)
  if doc is None or not isinstance(g, ip.IFunction):
    return a, k
  names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args][skip:]
  a, k = list(a), dict(k)
  for n in list(k):
    if n in doc and _same(k[n], doc[n]):
      del k[n]
      _dropped.append(n)
  while a and len(a) <= len(names) and names[len(a) - 1] in doc \
      and _same(a[-1], doc[names[len(a) - 1]]):
    _dropped.append(names[len(a) - 1])
    a.pop()
  # an argument before a necessary one is left out by naming the others
  i = 0
  while i < len(a) and i < len(names) and not (names[i] in doc and _same(a[i], doc[names[i]])):
    i += 1
  if i < len(a) <= len(names):
    for n, v in zip(names[i:], a[i:]):
      if n in doc and _same(v, doc[n]):
        _dropped.append(n)
      else:
        k[n] = v
    a = a[:i]
  return tuple(a), k


def omitting(fn, name):
  def f():
    del _dropped[:]
    Mode.omit = _omit
    try:
      fn()
    finally:
      Mode.omit = None
    ok('%s: %d arguments left out' % (name, len(_dropped)))
  return f


_PICK = {
    'P01': ('depth 16',),
    'P02': ('build depth 3 full depth 2 batch 1',),
    'P03': ('init_octree', 'grow full level 2 of 2 upd=None', 'grow level 3 of full depth 2'),
    'P04': ('kernel=333 stride=1 nempty=0', 'kernel=333 stride=1 nempty=1', 'kernel=222 stride=1 nempty=0'),
    'P06': ('to_points points rescale=True',),
    'P07': ('d=3 nempty=0',),
    'P08': ('k=333 s=1 nempty=0', 'k=333 s=1 nempty=1', 'k=222 s=2 nempty=0'),
    'P11': ('d=2 nempty=0', 'stride=2 nempty=0'),
    'P12': ('d=2 nempty=0 bound=0', 'upsample linear 1->2 nempty=0', 'upsample nearest 1->2 nempty=0'),
    'P13': ('d=2 nempty=0',),
    'P19': ('n=2 nempty=0', 'LeNet D=4 stages=2 nempty=0', 'D=4 stages=1 linear nempty=0',
            'UNet D=6 linear nempty=0', 'stages=3 nempty=0', 'InputFeature NDF', 'k=333 s=1 nempty=0',
            '8->16 s=1 bottleneck=4 nempty=0', '8->8 s=1 bottleneck=1 nempty=0', 'ckpt=0 nempty=0',
            'AutoEncoder D=4 F=2', 'Image2Shape D=4 F=2', 'OUNet D=4 F=2', 'Conv1x1'),
    'P21': ('d=2 nempty=0',),
    'P22': ('scatter_add rank=2',),
    'P25': ('d=2 nempty=0',),
}


for _p, _w in sorted(_PICK.items()):
  for _o in list(REG.get(_p, ())):
    if _o.tier == 'quick' and any(x in _o.name for x in _w):
      ob(_p, _o.name + ' (defaults)', 'quick', _o.timeout, _o.paths)(omitting(_o.fn, _o.name))
