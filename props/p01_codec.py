"""P01: the shuffled-key codec is a bijection that keeps the batch index."""
from absint import terms as tm
from absint import tensor as tn
from absint.tensor import S
from absint.terms import P, App, declare
from absint import driver as dr
from absint.driver import anchor, call, check_equal, check_dims, set_models, ok, fail
from absint.octbase import sym, feat
from . import ob


def models(depth):
  import random
  out = []
  for s in range(6):
    def coord(name, s=s):
      def f(i):
        return random.Random('%s%d%d' % (name, int(i), s)).randrange(1 << depth)
      return f
    out.append({'n': lambda s=s: 3, 'x': coord('x'), 'y': coord('y'), 'z': coord('z'),
                'b': lambda i, s=s: [0, 1, 5, 130, 2 ** 14 + 3, 32767][(int(i) + s) % 6],
                'k': lambda i, s=s: random.Random('k%d%d' % (int(i), s)).randrange(1 << (3 * depth)),
                })
  return out


def inputs(depth, dev=None, dt='int64'):
  n = sym('n')
  hi = (1 << depth) - 1
  c = [feat(v, [n], dt, dev, lo=0, hi=hi, isint=True) for v in 'xyz']
  for v in 'xyz':
    tm.Ctx.fns[v].hi = hi
  b = feat('b', [n], dt, dev, lo=0, hi=32767, isint=True)
  tm.Ctx.fns['b'].hi = 32767
  return n, c, b


def bit(p, i):
  return tm.mk_slc(P(p), i, 1)


def morton(x, y, z, depth):
  t = []
  for i in range(depth):
    for j, v in ((2, x), (1, y), (0, z)):
      t.append(tm.scale(bit(v, i), 2 ** (3 * i + j)))
  return tm.addn(t)


def enc(depth, batch, dt='int64'):
  def f():
    set_models(models(depth))
    n, (x, y, z), b = inputs(depth, dt=dt)
    e = anchor('ocnn.octree:xyz2key')
    if batch == 'tensor':
      r = call(e, x, y, z, b, depth)
    elif batch == 'int':
      r = call(e, x, y, z, tn.const_tensor([], [7], 'int64', tn.dev_of('cpu')), depth)
    elif batch == 'pyint':
      r = call(e, x, y, z, 7, depth)
    else:
      r = call(e, x, y, z, depth=depth)

    def spec(i):
      m = morton(App('x', i), App('y', i), App('z', i), depth)
      if batch == 'tensor':
        return m + App('b', i) * 2 ** 48
      if batch in ('int', 'pyint'):
        return m + 7 * 2 ** 48
      return m
    check_equal(r, [n], spec, 'key(x,y,z,b) interleaves the bits, batch above bit 48', dtype='int64')
  return f


def roundtrip(depth, batch):
  def f():
    set_models(models(depth))
    n, (x, y, z), b = inputs(depth)
    k = call(anchor('ocnn.octree:xyz2key'), x, y, z, b if batch else None, depth)
    out = call(anchor('ocnn.octree:key2xyz'), k, depth)
    if not isinstance(out, tuple) or len(out) != 4:
      fail('key2xyz must return (x, y, z, batch)')
    for nm, t in zip('xyzb', out):
      check_equal(t, [n], lambda i, nm=nm: App(nm, i) if nm != 'b' or batch else P(0),
                  'decode(encode(.)).%s is the identity' % nm, dtype='int64')
  return f


def inverse(depth):
  def f():
    set_models(models(depth))
    n = sym('n')
    k = feat('k', [n], 'int64', lo=0)
    tm.Ctx.fns['k'].hi = (1 << (3 * depth)) - 1
    x, y, z, b = call(anchor('ocnn.octree:key2xyz'), k, depth)
    kk = call(anchor('ocnn.octree:xyz2key'), x, y, z, b, depth)
    check_equal(kk, [n], lambda i: App('k', i), 'encode(decode(key)) is the identity', dtype='int64')
  return f


def hier(depth):
  def f():
    set_models(models(depth))
    n, (x, y, z), b = inputs(depth)
    e = anchor('ocnn.octree:xyz2key')
    k = call(e, x, y, z, None, depth)
    pk = call(e, x >> 1, y >> 1, z >> 1, None, depth - 1)
    check_equal(k >> 3, [n], lambda i: pk._at((i,)), 'parent key of a cell is the key of its parent cell')
    check_equal(k & 7, [n], lambda i: bit(App('x', i), 0) * 4 + bit(App('y', i), 0) * 2 + bit(App('z', i), 0),
                'low three bits are the child octant')
  return f


for _d in range(1, 17):
  ob('P01', 'encode depth %d' % _d)(enc(_d, 'tensor'))
  ob('P01', 'encode no batch depth %d' % _d)(enc(_d, None))
  ob('P01', 'roundtrip depth %d' % _d)(roundtrip(_d, True))
  ob('P01', 'inverse depth %d' % _d)(inverse(_d))
  if _d > 1:
    ob('P01', 'hierarchy depth %d' % _d)(hier(_d))
for _d in (3, 8, 9, 16):
  ob('P01', 'encode constant batch depth %d' % _d)(enc(_d, 'int'))
  ob('P01', 'encode python int batch depth %d' % _d)(enc(_d, 'pyint'))
  ob('P01', 'roundtrip no batch depth %d' % _d)(roundtrip(_d, False))
  for _t in ('int32', 'int16', 'float32', 'float64'):
    if _t != 'int16' or _d < 16:
      ob('P01', 'encode %s depth %d' % (_t, _d))(enc(_d, 'tensor', _t))
