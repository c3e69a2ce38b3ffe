"""P05: merging octrees."""
from .common import *
from .p03_grow import scal

FEATS = ('features', 'normals', 'points')


def sources(K, D, F, feats, dev=None):
  pre = ['abcde'[i] for i in range(K)]
  if feats and 'features' in feats:
    # one feature width for all samples
    sym('aCF', 1)
  os_ = []
  for p in pre:
    os_.append(Oct(dr.interp(), D, F, B=1, pre=p, feats=feats, neigh=False, dev=dev))
  return os_, pre


def width(os_, feats):
  """All samples carry the same number of feature channels."""
  if 'features' in feats:
    for o in os_[1:]:
      t = o.obj.d['features'][o.D]
      nm = o.pre + 'features'
      o.obj.d['features'][o.D] = feat(nm, [o.N(o.D, True), sym('aCF')], origin=(t.origin if hasattr(t, 'origin')
                                                                               else ('octree', 'features')))


def merge(K, D, F, feats):
  def f():
    os_, pre = sources(K, D, F, feats)
    width(os_, feats)
    set_models(octree_models(D, F, B=1, pre=tuple(pre), aCF=lambda s: 2))
    r = call(anchor('ocnn.octree:merge_octrees'), [o.obj for o in os_])
    it = dr.interp()
    get = lambda n: it.getattr(r, n)
    for n, v in (('depth', D), ('full_depth', F), ('batch_size', K)):
      g = get(n)
      compare(lambda ix: P(tn.py2poly(g)), lambda ix: P(v), [], [], 'merged %s' % n)
    tot = lambda d, ne: addn([o.N(d, ne) for o in os_])
    for d in range(D + 1):
      scal(r, 'nnum', d, tot(d, False), 'merged octree')
      scal(r, 'nnum_nempty', d, tot(d, True), 'merged octree')
      for nm, ne in (('batch_nnum', False), ('batch_nnum_nempty', True)):
        t = get(nm)
        check_dims(t, [D + 1, K], nm)
        for i, o in enumerate(os_):
          compare(lambda ix: t._at((P(d), P(i))), lambda ix: o.N(d, ne), [], [],
                  '%s[%d, %d] is the count of sample %d' % (nm, d, i, i))
      k, c = get('keys')[d], get('children')[d]
      check_dims(k, [tot(d, False)], 'merged keys of level %d' % d)
      check_dims(c, [tot(d, False)], 'merged children of level %d' % d)
      check_dtype(k, 'int64', 'merged keys')
      off, cum = P(0), P(0)
      for i, o in enumerate(os_):
        n = o.N(d)
        sl = (slice(S(off) if off.const() is None else int(off.const()),
                    S(off + n) if (off + n).const() is None else int((off + n).const())),)
        check_equal(tn.getitem(k, sl), [n], lambda j: tm.mk_slc(o.key(d, j), 0, 48) + i * 2 ** 48,
                    'level %d: keys of sample %d with batch index %d' % (d, i, i))
        check_equal(tn.getitem(c, sl), [n], lambda j: Ite(Ge(o.ch(d, j)), o.ch(d, j) + cum, o.ch(d, j)),
                    'level %d: children of sample %d in the merged numbering' % (d, i), dtype='int32')
        off, cum = off + n, cum + o.N(d, True)
      for fn in FEATS:
        t = get(fn)[d]
        if d < D or fn not in feats:
          if t is not None:
            fail('merged %s of level %d appear from nowhere' % (fn, d))
          continue
        if not isinstance(t, T):
          fail('merged %s of level %d are lost' % (fn, d))
        w = P(3) if fn != 'features' else sym('aCF')
        check_dims(t, [tot(d, True), w], 'merged ' + fn)
        off = P(0)
        for o in os_:
          n = o.N(d, True)
          part = tn.getitem(t, (slice(S(off) if off.const() is None else int(off.const()), S(off + n)),))
          check_equal(part, [n, w], lambda j, c: App(o.pre + fn, j, c),
                      'merged %s: rows of sample %s' % (fn, o.pre), dtype='float32')
          off = off + n
  return f


for _K in (1, 2, 3, 4):
  for _D, _F in ((4, 2), (3, 3)):
    for _f in ((), FEATS, ('normals',)):
      ob('P05', 'merge %d octrees D=%d F=%d %s' % (_K, _D, _F, '+'.join(_f) or 'bare'))(merge(_K, _D, _F, _f))
for _K in (5,):
  ob('P05', 'merge %d octrees D=6 F=2' % _K, tier='thorough')(merge(_K, 6, 2, FEATS))


def large(K, picks):
  """One octree repeated: the index of a sample is not cut off."""
  def f():
    o = Oct(dr.interp(), 1, 0, B=1, pre='a', feats=(), neigh=False)
    set_models(octree_models(1, 0, B=1, pre=('a',)))
    r = call(anchor('ocnn.octree:merge_octrees'), [o.obj] * K)
    get = lambda n: dr.interp().getattr(r, n)
    compare(lambda ix: P(tn.py2poly(get('batch_size'))), lambda ix: P(K), [], [], 'merged batch_size')
    cut = lambda p: S(p) if p.const() is None else int(p.const())
    for d in (0, 1):
      k, c = get('keys')[d], get('children')[d]
      n, h = o.N(d), o.N(d, True)
      check_dims(k, [n * K], 'merged keys of level %d' % d)
      for i in picks:
        sl = (slice(cut(n * i), cut(n * i + n)),)
        check_equal(tn.getitem(k, sl), [n], lambda j: tm.mk_slc(o.key(d, j), 0, 48) + i * 2 ** 48,
                    'level %d: keys of sample %d of a batch of %d' % (d, i, K))
        check_equal(tn.getitem(c, sl), [n], lambda j: Ite(Ge(o.ch(d, j)), o.ch(d, j) + h * i, o.ch(d, j)),
                    'level %d: children of sample %d of a batch of %d' % (d, i, K), dtype='int32')
  return f


ob('P05', 'merge a batch of 300')(large(300, (1, 127, 128, 255, 256, 299)))
