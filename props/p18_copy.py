"""P18: copies and conversions of octrees and point clouds."""
import re

from .common import *
from .p20_points import cloud, models as cmodels, SETS, same_cloud

D = 3


def equal(a, b, what, dev=None, skip=()):
  """b is a copy of a: same structure and values; tensors of a that live on the
  source device must live on dev."""
  if isinstance(a, T):
    if not isinstance(b, T):
      fail('%s is lost: %s' % (what, type(b).__name__ if b is not None else 'None'))
    check_dims(b, list(a._dims), what)
    if a._dt != b._dt:
      fail('%s changes its type from %s to %s' % (what, a._dt, b._dt), b._st.loc)
    g = a._snap()
    vs = [tm.named('c%d' % i, d) for i, d in enumerate(a._dims)]
    compare(lambda ix: b._at(tuple(ix)), lambda ix: g(tuple(ix)), [P(v) for v in vs], list(a._dims),
            what + ' keeps its values', b._st.loc)
    if dev is not None and b._dev != tn.dev_of(dev):
      fail('%s stays on %s' % (what, b._dev), b._st.loc)
  elif isinstance(a, (list, tuple)):
    if not isinstance(b, (list, tuple)) or len(a) != len(b):
      fail('%s is lost' % what)
    for i, (x, y) in enumerate(zip(a, b)):
      equal(x, y, '%s[%d]' % (what, i), dev)
  elif isinstance(a, dict):
    if not isinstance(b, dict) or set(a) != set(b):
      fail('%s is lost' % what)
    for k in a:
      equal(a[k], b[k], '%s[%r]' % (what, k), dev)
  elif isinstance(a, S) or isinstance(b, S):
    compare(lambda ix: tn.py2poly(b), lambda ix: tn.py2poly(a), [], [], what + ' is kept')
  elif a is None:
    if b is not None:
      fail('%s appears from nowhere' % what)
  elif isinstance(a, tn.Device):
    pass
  elif a != b:
    fail('%s changes from %r to %r' % (what, a, b))
  else:
    ok(what)


COUNTS = ('nnum', 'nnum_nempty', 'batch_nnum', 'batch_nnum_nempty')


def attrs(o):
  return [k for k in o.d if not k.startswith('__')]


def copied(a, b, dev, what):
  for k in attrs(a):
    if k not in b.d:
      fail('%s loses the attribute %s' % (what, k))
    if k == 'device':
      if tn.dev_of(b.d[k]) != tn.dev_of(dev):
        fail('%s reports the device %s' % (what, b.d[k]))
      continue
    equal(a.d[k], b.d[k], '%s: %s' % (what, k), None if k in COUNTS or k == 'batch_npt' else dev)


def move(how, src, dst, feats, F, neigh, up):
  def f():
    o = Oct(dr.interp(), D, F, feats=feats, neigh=neigh, dev=src, up_to=up)
    set_models(octree_models(D, F))
    for m in dr.CUR.models:
      m.update({'CF': lambda: 2, 'features': lambda i, j: 7 * i + j, 'normals': lambda i, j: i - j,
                'points': lambda i, j: i + 3 * j})
    if feats == ALLF:           # signals may be stored on any level
      for a in ALLF:
        for d in range(1, D):
          o.obj.d[a][d] = feat('%s%d' % (a, d), [o.N(d, True), 3], dev=o.dev)
    # arbitrary attributes of a user must survive as well as the library's own
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in o.obj.d.items()}
    r = how(o.obj)
    if tn.dev_of(src) == tn.dev_of(dst):
      if r is not o.obj:
        copied(o.obj, r, dst, 'the moved octree')
      else:
        ok('same device')
    else:
      if r is o.obj:
        fail('the octree is not moved')
      copied(o.obj, r, dst, 'the moved octree')
    for k, v in before.items():
      w = o.obj.d.get(k)
      if isinstance(v, list):
        if len(v) != len(w) or any(x is not y for x, y in zip(v, w)):
          fail('moving changes %s of the source' % k)
      elif isinstance(v, T) and w is not v:
        fail('moving replaces %s of the source' % k)
  return f


HOWS = [('to(str)', lambda d: lambda o: o.m('to', d)),
        ('to(device)', lambda d: lambda o: o.m('to', tn.dev_of(d))),
        ('to(non_blocking)', lambda d: lambda o: o.m('to', d, non_blocking=True)),
        ('to(positional)', lambda d: lambda o: o.m('to', d, True))]
ALLF = ('features', 'normals', 'points')
for _hn, _h in HOWS:
  for _s, _d in (('cpu', 'cuda:0'), ('cuda:0', 'cpu'), ('cuda:0', 'cuda:1'), ('cpu', 'cpu')):
    for _f in (ALLF, (), ('normals',), ('features', 'points')):
      for _F, _n, _u in ((2, True, None), (1, False, None), (2, True, 2)):
        ob('P18', 'octree %s %s>%s signals=%s full=%d neigh=%d up=%s' % (
            _hn, _s, _d, '+'.join(_f) or 'none', _F, _n, _u))(move(_h(_d), _s, _d, _f, _F, _n, _u))
ob('P18', 'octree cuda()')(move(lambda o: o.m('cuda'), 'cpu', 'cuda', ALLF, 2, True, None))
ob('P18', 'octree cuda(non_blocking)')(
    move(lambda o: o.m('cuda', non_blocking=True), 'cpu', 'cuda', ALLF, 2, True, None))
ob('P18', 'octree cpu()')(move(lambda o: o.m('cpu'), 'cuda:0', 'cpu', ALLF, 2, True, None))


def movep(how, src, dst, attr, rank1, npt, bs=None):
  def f():
    dr.Mode.dev = src
    try:
      p, d, N = cloud('float32', attr, rank1=rank1)
    finally:
      dr.Mode.dev = None
    cmodels(bnpt=lambda s, i: 1 + i)
    if bs:
      p.d['batch_size'] = bs
    if npt:
      p.d['batch_npt'] = feat('bnpt', [3], 'int64', 'cpu')
    r = how(p)
    if tn.dev_of(src) != tn.dev_of(dst) and r is p:
      fail('the point cloud is not moved')
    copied(p, r, dst, 'the moved point cloud')
    for k in attrs(p):
      if k in d and k != 'points' and not rank1 and p.d[k] is not d[k]:
        fail('moving changes %s of the source' % k)
  return f


for _hn, _h in HOWS:
  for _s, _d in (('cpu', 'cuda:0'), ('cuda:0', 'cpu'), ('cuda:1', 'cuda:0')):
    for _a in SETS:
      for _np in (0, 1):
        ob('P18', 'points %s %s>%s %s npt=%d' % (_hn, _s, _d, '+'.join(_a) or 'points only', _np))(
            movep(_h(_d), _s, _d, _a, False, _np))
      for _b in (1, 2):
        ob('P18', 'points %s %s>%s %s batch of %d' % (_hn, _s, _d, '+'.join(_a) or 'points only', _b))(
            movep(_h(_d), _s, _d, _a, False, 1, _b))
ob('P18', 'points cuda()')(movep(lambda o: o.m('cuda'), 'cpu', 'cuda', SETS[0], False, 1))
ob('P18', 'points cuda(non_blocking)')(movep(lambda o: o.m('cuda', True), 'cpu', 'cuda', SETS[0], False, 1))
ob('P18', 'points cpu()')(movep(lambda o: o.m('cpu'), 'cuda:0', 'cpu', SETS[0], False, 1))


def merge(K, attr, dev, upd):
  def f():
    ps, ds, Ns = [], [], []
    for k in range(K):
      N = sym('N%d' % k)
      Ns.append(N)
      d = {'points': feat('pts%d' % k, [N, 3], 'float32', dev)}
      for a, c, dt in (('normals', 3, 'float32'), ('features', 2, 'float32'), ('labels', 1, 'int64')):
        if a in attr:
          d[a] = feat('%s%d' % (a, k), [N, c], dt, dev)
      ds.append(d)
      ps.append(call(anchor('ocnn.octree:Points'), **d))
    set_models([dict([('N%d' % k, (lambda s=s, k=k: 1 + (s + k) % 3)) for k in range(K)] +
                     [('%s%d' % (a, k), (lambda a, k, s: lambda i, j: (len(a) + 5 * k + 3 * i + j + s))(
                         a if a != 'points' else 'pts', k, s))
                      for k in range(K) for a in ('pts', 'normals', 'features', 'labels')])
                for s in range(4)])
    kw = {} if upd is None else {'update_batch_info': upd}
    r = call(anchor('ocnn.octree:merge_points'), list(ps), **kw)
    tot = addn(Ns)
    for a, c, nm in (('points', 3, 'pts'), ('normals', 3, 'normals'), ('features', 2, 'features'),
                     ('labels', 1, 'labels')):
      if a not in ds[0]:
        if r.d[a] is not None:
          fail('merging: %s appear from nowhere' % a)
        continue
      t = r.d[a]
      if not isinstance(t, T):
        fail('merging loses the %s' % a)
      check_dims(t, [tot, c], 'merged ' + a)
      if t._dev != tn.dev_of(dev):
        fail('merged %s on %s' % (a, t._dev))
      if t._dt != ds[0][a]._dt:
        fail('merged %s have type %s' % (a, t._dt))
      off = P(0)
      for k in range(K):
        v, w = tm.named('row', Ns[k]), tm.named('col', P(c))
        compare(lambda ix: t._at((off + ix[0], ix[1])), lambda ix: App('%s%d' % (nm, k), ix[0], ix[1]),
                [P(v), P(w)], [Ns[k], P(c)], 'merged %s: cloud %d in order' % (a, k), t._st.loc)
        off = off + Ns[k]
    if tn.dev_of(r.d['device']) != tn.dev_of(dev):
      fail('the merged cloud reports device %s' % r.d['device'])
    for k in range(K):
      for a in ds[k]:
        if ps[k].d[a] is not ds[k][a]:
          fail('merging changes %s of a source' % a)
    if upd is False:
      return
    compare(lambda ix: tn.py2poly(r.d['batch_size']), lambda ix: P(K), [], [], 'merged batch size')
    bn = r.d['batch_npt']
    if not isinstance(bn, T):
      fail('merging records no batch_npt')
    check_dims(bn, [K], 'batch_npt')
    for k in range(K):
      compare(lambda ix: bn._at((P(k),)), lambda ix: Ns[k], [], [], 'batch_npt[%d]' % k)
    b = r.d['batch_id']
    if not isinstance(b, T):
      fail('merging records no batch_id')
    check_dims(b, [tot, 1], 'batch_id')
    if b._dev != tn.dev_of(dev):
      fail('batch_id on %s' % b._dev)
    off = P(0)
    for k in range(K):
      v = tm.named('row', Ns[k])
      compare(lambda ix: b._at((off + ix[0], P(0))), lambda ix: P(k), [P(v)], [Ns[k]],
              'batch_id of cloud %d' % k, b._st.loc)
      off = off + Ns[k]
  return f


for _K in (1, 2, 3, 4):
  for _a in (('normals', 'features', 'labels'), (), ('features',)):
    for _dv in ('cpu', 'cuda:0'):
      for _u in (None, True, False):
        ob('P18', 'merge_points K=%d %s %s upd=%s' % (_K, '+'.join(_a) or 'points only', _dv, _u))(
            merge(_K, _a, _dv, _u))


# ------------------------------------------------------------- saving points
LETTER = {'P': 'points', 'N': 'normals', 'F': 'features', 'L': 'labels', 'B': 'batch_id'}


def grid(n, w):
  return [P(tm.named('row', n)), P(tm.named('col', w)) if w.const() != 1 else P(0)]


def saved(attr, src, rank1, suffix, info):
  """The file holds the requested attributes that are present, in the requested order."""
  def f():
    from absint import numpylib
    del numpylib.FILES[:]
    dr.Mode.dev = src
    try:
      p, d, N = cloud('float32', attr)
    finally:
      dr.Mode.dev = None
    cmodels()
    for k in ('labels', 'batch_id'):
      if rank1 and k in d:        # (set after construction, as CollateBatch and users do)
        p.d[k] = d[k] = feat({'labels': 'lbl', 'batch_id': 'bid'}[k], [N], 'int64', src)
    name = 'cloud.' + suffix
    if suffix not in ('npz', 'xyz'):
      return rejected(lambda: p.m('save', name), 'an unknown file type is rejected')
    p.m('save', name, *(() if info is None else (info,)))
    if len(numpylib.FILES) != 1:
      fail('saving writes %d files' % len(numpylib.FILES))
    kind, fn, data, opt = numpylib.FILES[0]
    if fn != name:
      fail('the file is named %r' % (fn,))
    want = [LETTER[c] for c in (info or 'PNFL').upper() if LETTER[c] in d]
    if kind != {'npz': 'npz', 'xyz': 'txt'}[suffix]:
      fail('a .%s file is written as %s' % (suffix, kind))
    get = lambda k: (lambda ix: d[k]._at((ix[0], ix[1]) if len(d[k]._dims) == 2 else (ix[0],)))
    width = lambda k: d[k]._dims[1] if len(d[k]._dims) == 2 else P(1)
    if suffix == 'npz':
      if sorted(data) != sorted(want):
        fail('the file holds %s instead of %s' % (sorted(data), sorted(want)))
      for k in want:
        check_dims(data[k], [N, width(k)], 'saved ' + k)
        compare(lambda ix: data[k]._at(tuple(ix)), get(k), grid(N, width(k)), [N, width(k)],
                'saved %s' % k)
        if data[k]._dt != d[k]._dt:
          fail('saved %s change their type to %s' % (k, data[k]._dt))
      return
    tot = P(0)
    for k in want:
      tot = tot + width(k)
    check_dims(data, [N, tot], 'saved table')
    at = P(0)
    for k in want:
      base = at
      compare(lambda ix: data._at((ix[0], base + ix[1])), get(k), grid(N, width(k)), [N, width(k)],
              'columns of %s' % k)
      at = at + width(k)
    m = re.match(r'%[ +-]?\d*\.(\d+)[feg]$', opt['fmt'] if isinstance(opt['fmt'], str) else '')
    if not m:
      raise Undecided('format %r' % (opt['fmt'],))
    if int(m.group(1)) < 6:
      fail('the table is rounded to %s digits' % m.group(1))
    if opt['delimiter'] not in (' ', '\t'):
      fail('columns of an xyz file are separated by %r' % opt['delimiter'])
  return f


for _a in SETS:
  _n = '+'.join(_a) or 'points only'
  for _x in ('npz', 'xyz'):
    for _i in (None, 'PNFLB', 'NP', 'blp'):
      if _x == 'xyz' and not any(LETTER[c] == 'points' or LETTER[c] in _a for c in (_i or 'PNFL').upper()):
        continue
      for _s in ('cpu', 'cuda:0'):
        ob('P18', 'points save %s info=%s %s %s' % (_x, _i, _n, _s))(saved(_a, _s, False, _x, _i))
      if 'labels' in _a or 'batch_id' in _a:
        ob('P18', 'points save %s info=%s %s vectors' % (_x, _i, _n))(saved(_a, 'cpu', True, _x, _i))
ob('P18', 'points save to an unknown file type')(saved((), 'cpu', False, 'ply', None))
