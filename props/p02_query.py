"""P02: the queries of a level report its nodes."""
from .common import *

D = 4


def query(which, F, d, nempty, given):
  def f():
    o = Oct(dr.interp(), D, F, neigh=False)
    set_models(octree_models(D, F))
    m = dr.interp().getattr(o.obj, which)
    args = (d,) if which == 'nempty_mask' else (d, nempty) if given else (d,)
    r = call(m, *args)
    n = o.N(d, nempty)

    def at(i):
      return o.key(d, o.sel(d, i) if nempty else i)
    what = '%s of level %d' % (which, d)
    if which == 'key':
      check_equal(r, [n], at, what, dtype='int64')
    elif which == 'batch_id':
      if r._dt not in ('int32', 'int64'):
        fail('%s: the batch indices are %s' % (what, r._dt))
      check_equal(r, [n], lambda i: tm.mk_slc(at(i), 48, None), what)
    elif which == 'nempty_mask':
      check_equal(r, [n], lambda i: Ge(o.ch(d, i)), what, dtype='bool')
    else:
      if not isinstance(r, (tuple, list)) or len(r) != 4:
        fail('%s: x, y, z and batch index are expected' % what)
      for s, t in zip((2, 1, 0), r):
        check_equal(t, [n], lambda i, s=s: tm.addn(
            [tm.scale(bit(at(i), 3 * k + s), 2 ** k) for k in range(d)]), what + ' axis %d' % (2 - s))
      check_equal(r[3], [n], lambda i: tm.mk_slc(at(i), 48, None), what + ' batch index')
  return f


for _F, _d in ((2, 1), (2, 2), (2, 3), (1, 4)):
  for _w in ('key', 'batch_id', 'xyzb', 'nempty_mask'):
    for _n, _g in ((False, True), (True, True), (False, False)):
      if _w == 'nempty_mask' and (_n or _g):
        continue
      ob('P02', 'query %s F=%d d=%d nempty=%d%s' % (_w, _F, _d, _n, '' if _g else ' default'))(
          query(_w, _F, _d, _n, _g))
