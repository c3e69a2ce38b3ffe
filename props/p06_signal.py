"""P06: signals of the octree nodes, input features and the way back to points."""
import itertools
from .common import *

D, F = 4, 2
NRM = ('points', 'normals', 'features')


def models(CF=2, **kw):
  import random
  out = octree_models(D, F, 2, range(4), CF=CF, **kw)
  for s, m in enumerate(out):
    for n in NRM:
      m[n] = (lambda n, s: lambda *a: tm.Fraction(
          random.Random('%s %d %r' % (n, s, [int(x) for x in a])).randrange(0, 99), 8)
              - (0 if n == 'points' else 6))(n, s)
  set_models(out)


def octree(feats=NRM, cf=None):
  o = Oct(dr.interp(), D, F, feats=feats, cf=cf)
  if 'points' in feats:
    tm.Ctx.fns['points'].hi = 2 ** D
  models()
  return o


def pt(e, c):
  return App('points', e, P(c))


def frac(v):
  return v - tm.Floor(v)


def signal(o, kinds, cf=2):
  """Channels of the occupied nodes in the documented order N D L P F."""
  cols = []
  for k in 'NDLPF':
    if k not in kinds:
      continue
    if k == 'N':
      cols += [lambda e, c=c: App('normals', e, P(c)) for c in range(3)]
    if k == 'D':
      cols.append(lambda e: addn([mul(frac(pt(e, c)) - tm.Fraction(1, 2), App('normals', e, P(c)))
                                  for c in range(3)]))
    if k == 'L':
      cols += [lambda e, c=c: frac(pt(e, c)) - tm.Fraction(1, 2) for c in range(3)]
    if k == 'P':
      cols += [lambda e, c=c: tm.scale(pt(e, c), tm.Fraction(2, 2 ** D)) - 1 for c in range(3)]
  if 'F' in kinds:
    cols += [lambda e, j=j: App('features', e, P(j)) for j in range(cf)]
  width = P(len(cols))

  def val(e, c):
    return addn([mul(Eq(c - j), g(e)) for j, g in enumerate(cols)])
  return width, val


def input_feature(kinds, nempty, spelled, cf=2):
  def f():
    o = octree(cf=cf)
    args = {'nempty': nempty} if nempty is not None else {}
    r = call(anchor('ocnn.octree:Octree.get_input_feature', ), o.obj, spelled, **args)
    w, val = signal(o, kinds, cf)
    if nempty:
      check_equal(r, [o.N(D, True), w], val, 'one row per occupied node, channels N D L P F', dtype='float32')
    else:
      check_equal(r, [o.N(D), w], lambda i, c: Ite(Ge(o.ch(D, i)), val(o.ch(D, i), c), P(0)),
                  'signal on occupied nodes, zero elsewhere', dtype='float32')
  return f


for _n in range(1, 6):
  for _k in itertools.combinations('NDLPF', _n):
    _s = ''.join(_k)
    for _e in (True, False):
      ob('P06', 'input feature %s nempty=%s' % (_s, _e))(input_feature(_s, _e, _s))
for _s in ('FN', 'PLDN', 'ndf', 'Lp', 'fpldn'):
  ob('P06', 'input feature spelled %s' % _s)(input_feature(_s.upper(), True, _s))
  ob('P06', 'input feature spelled %s default rows' % _s)(input_feature(_s.upper(), None, _s))


for _c in (1, 3, 8):
  for _s in ('F', 'NDLPF'):
    ob('P06', 'input feature %s with %d channels' % (_s, _c))(input_feature(_s, None, _s, _c))


def module(kinds, nempty):
  """The input-feature module yields the same rows."""
  def f():
    o = octree(cf=2)
    m = call(anchor('ocnn.modules:InputFeature'), kinds, nempty)
    r = call(m, o.obj)
    w, val = signal(o, kinds)
    if nempty:
      check_equal(r, [o.N(D, True), w], val, 'rows of the occupied nodes')
    else:
      check_equal(r, [o.N(D), w], lambda i, c: Ite(Ge(o.ch(D, i)), val(o.ch(D, i), c), P(0)), 'all nodes')
  return f


for _k in ('N', 'ND', 'NDF', 'LPF', 'NDLPF'):
  for _e in (True, False):
    ob('P06', 'InputFeature %s nempty=%s' % (_k, _e))(module(_k, _e))


def back(feats, rescale):
  """Octree -> point cloud."""
  def f():
    o = octree(feats)
    kw = {} if rescale is None else {'rescale': rescale}
    p = call(anchor('ocnn.octree:Octree.to_points'), o.obj, **kw)
    n = o.N(D, True)

    def xyz(e, c):
      if 'points' in feats:
        v = App('points', e, c)
      else:
        k = o.key(D, o.sel(D, e))
        x = [addn([tm.scale(bit(k, 3 * i + 2 - a), 2 ** i) for i in range(D)]) for a in range(3)]
        v = addn([mul(Eq(c - a), x[a] + tm.Fraction(1, 2)) for a in range(3)])
      if rescale is False:
        return v
      return tm.scale(v, tm.Fraction(2, 2 ** D)) - 1
    if 'points' in feats or dr.Mode.kind != 'dtype':     # cell centres have no data type of their own
      check_equal(p.d['points'], [n, 3], xyz, 'coordinates of the occupied nodes')
    for a in ('normals', 'features'):
      if a in feats:
        check_equal(p.d[a], [n, 3] if a == 'normals' else [n, sym('CF')],
                    lambda e, c, a=a: App(a, e, c), a)
      elif p.d[a] is not None:
        fail('%s appear from nowhere' % a)
    if p.d['labels'] is not None:
      fail('labels appear from nowhere')
    check_equal(p.d['batch_id'], [n, 1], lambda e, c: tm.mk_slc(o.key(D, o.sel(D, e)), 48, None),
                'every point keeps the sample of its node')
    compare(lambda ix: tn.py2poly(p.d['batch_size']), lambda ix: o.B, [], [], 'number of samples')
  return f


for _n in range(0, 4):
  for _k in itertools.combinations(NRM, _n):
    for _r in (None, True, False):
      ob('P06', 'to_points %s rescale=%s' % ('+'.join(_k) or 'none', _r))(back(_k, _r))
