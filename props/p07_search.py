"""P07: key and cell searches, value look-up and octree alignment."""
import random
from .common import *


def setup(D=4, F=2):
  o = Oct(dr.interp(), D, F, neigh=False)
  set_models(octree_models(D, F, seeds=[*range(8), 1000, 1001], C=small, Q=lambda s: 5))
  return o


def first(m, d):
  """Row of the first node of the second sample."""
  i = 0
  while m['key%d' % d](i) < 1 << 48:
    i += 1
  return i


def keyquery(o, d, M=None):
  """Arbitrary keys; half of the witness queries are keys of the octree."""
  for s, m in enumerate(dr.CUR.models):
    def q(i, m=m, s=s):
      R = random.Random('%d-%d' % (int(i), s))
      n = 2 * 8 ** min(d, 2)
      z = R.randrange(6)
      if z == 0:
        return -R.randrange(1, 9)
      if z == 1:
        return (2 << 48) + R.randrange(99)
      if z == 5:          # a cell of another sample
        w = m['key%d' % d](first(m, d) if R.randrange(2) else R.randrange(8))
        return (w & (1 << 48) - 1) + (R.randrange(2) << 48)
      k = m['key%d' % d](R.randrange(8 * (1 if d > 2 else n // 8)))
      return k + (R.randrange(2) if z == 2 else 0)
    m['q'] = q
  return feat('q', [sym('Q')], 'int64')


def key(d, nempty, F=2, D=4):
  def f():
    o = setup(D, F)
    q = keyquery(o, d)
    r = o.obj.m('search_key', q, d, nempty)
    check_equal(r, [sym('Q')], lambda i: find(o, d, App('q', i), nempty),
                'search_key finds the node with the key, -1 if absent', dtype='int64')
  return f


def xyzb(d, nempty, D=4):
  def f():
    o = setup(D)
    Q = sym('Q')
    declare('qi', 'i', 0, 2 ** d - 1)
    declare('qf', 'f', 0, 1 - tm.Fraction(1, 2 ** 40))
    declare('qb', 'i', 0, o.B - 1)
    for s, m in enumerate(dr.CUR.models):
      R = lambda *a, s=s: random.Random('%r %d' % (a, s))
      def qi(i, c, R=R, m=m):
        z = R(int(i), 7).randrange(3)
        if z == 0:
          return R(int(i), int(c)).randrange(2 ** d)
        k = m['key%d' % d](first(m, d) if z == 1 else R(int(i), 8).randrange(8)) & (1 << 48) - 1
        return dec(k, d)[int(c)]
      m['qi'] = qi
      m['qf'] = lambda i, c, R=R: tm.Fraction(R(int(i), int(c), 1).randrange(8), 8)
      m['qb'] = lambda i, R=R: R(int(i)).randrange(2)
    q = columns('q', Q, [lambda i, c=c: App('qi', i, P(c)) + App('qf', i, P(c)) for c in range(3)] +
                [lambda i: App('qb', i)])
    r = o.obj.m('search_xyzb', q, d, nempty)

    def spec(i):
      k = morton(*[App('qi', i, P(c)) for c in range(3)], d) + App('qb', i) * 2 ** 48
      return find(o, d, k, nempty)
    check_equal(r, [Q], spec, 'search_xyzb finds the node whose cell contains the point', dtype='int64')
  return f


for _d in (1, 2, 3, 4):
  for _n in (False, True):
    ob('P07', 'search_key d=%d nempty=%d' % (_d, _n))(key(_d, _n))
    ob('P07', 'search_xyzb d=%d nempty=%d' % (_d, _n))(xyzb(_d, _n))
for _d in (8, 9, 11, 13, 16):
  for _n in (False, True):
    ob('P07', 'search_key deep d=%d nempty=%d' % (_d, _n))(key(_d, _n, D=16))
    ob('P07', 'search_xyzb deep d=%d nempty=%d' % (_d, _n))(xyzb(_d, _n, 16))


def two(D=4, F=2):
  it = dr.interp()
  B = sym('B', 2)
  a, b = Oct(it, D, F, B=B, pre='a', neigh=False), Oct(it, D, F, B=B, pre='b', neigh=False)
  set_models(octree_models(D, F, seeds=range(8), pre=('a', 'b'), C=small))
  return a, b


def align(d, nempty, dt):
  def f():
    a, b = two()
    C = sym('C')
    x = feat('x', [a.N(d, nempty), C], dt)
    r = call(anchor('ocnn.nn:octree_align'), x, a.obj, b.obj, d, nempty)

    def spec(i, c):
      q = b.key(d, b.sel(d, i) if nempty else i)
      k = find(a, d, q, nempty)
      return mul(Ge(k), App('x', k, c))
    check_equal(r, [b.N(d, nempty), C], spec,
                'aligned features are those of the node with the equal key, zero if there is none')
  return f


for _d in (1, 2, 3, 4):
  for _n in (False, True):
    ob('P07', 'octree_align d=%d nempty=%d' % (_d, _n))(align(_d, _n, 'float32'))


def value(d):
  def f():
    o = setup()
    q = keyquery(o, d)
    C = sym('C')
    x = feat('x', [o.N(d), C])
    r = call(anchor('ocnn.nn:search_value'), x, o.obj.d['keys'][d], q)

    def spec(i, c):
      k = find(o, d, App('q', i))
      return mul(Ge(k), App('x', k, c))
    check_equal(r, [sym('Q'), C], spec, 'search_value copies the value of the equal key, zero if absent')
  return f


for _d in (2, 3, 4):
  ob('P07', 'search_value d=%d' % _d)(value(_d))
