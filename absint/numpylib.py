"""numpy model (filled in for the project data pipelines)."""
from . import tensor as tn
from . import torchlib as tl
from .interp import NS, TypeTag, Stub
from .tensor import T, DT, RepoError
from .driver import Undecided


FILES = []      # (kind, file name, contents, options) written by the analysed code


def _array(a):
  if isinstance(a, T) and not a._isnp:
    if a._dev.type != 'cpu':
      raise RepoError('TypeError', 'can\'t convert a cuda tensor to numpy')
    a = a.numpy()
  return a


def _savez(file, *args, **kw):
  d = {'arr_%d' % i: a for i, a in enumerate(args)}
  d.update(kw)
  FILES.append(('npz', file, {k: _array(v) for k, v in d.items()}, {}))


def _savetxt(fname, X, fmt='%.18e', delimiter=' ', **kw):
  FILES.append(('txt', fname, _array(X), dict(kw, fmt=fmt, delimiter=delimiter)))


def _save(file, arr):
  FILES.append(('npy', file, _array(arr), {}))


def _promote(a, b):
  """numpy's common type; mixing integers and floating point numbers gives doubles."""
  if (a in tn.FLOATS) == (b in tn.FLOATS):
    return tn.promote(a, b)
  return 'float64'


def _concatenate(arrays, axis=0):
  ts = [_array(a) for a in arrays]
  dt = None
  for t in ts:
    if not isinstance(t, T):
      raise Undecided('np.concatenate of %s' % type(t).__name__)
    dt = t._dt if dt is None or dt == t._dt else _promote(dt, t._dt)
  r = tl.TORCH['cat']([tl.to_dtype(t, dt) if t._dt != dt else t for t in ts], axis)
  r._isnp = True
  return r


def module(it):
  d = {'ndarray': TypeTag('ndarray', lambda x: isinstance(x, T) and x._isnp)}
  it.builtins['%ndarray'] = d['ndarray']
  for n in ('float32', 'float64', 'float16', 'int32', 'int64', 'uint8'):
    d[n] = DT[n]
  d.update(savez=_savez, savez_compressed=_savez, savetxt=_savetxt, save=_save,
           concatenate=_concatenate, hstack=lambda ts: _concatenate(ts, 1),
           column_stack=lambda ts: _concatenate(ts, 1), asarray=_array)
  d['random'] = NS('numpy.random', {})
  d['linalg'] = NS('numpy.linalg', {})
  return NS('numpy', d)
