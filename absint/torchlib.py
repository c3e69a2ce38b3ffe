"""Abstract semantics of the torch API used by the analysed repository."""
from fractions import Fraction
import math
import re
import builtins
from . import terms as tm
from . import tensor as tt
from .terms import (P, Poly, Ite, Ge, Gt, Eq, Not, And, Or, Div, Mod, Fun,
                    fresh, mk_sum, mk_sel, mk_cnt, Tab, Table, ONE, ZERO)
from .tensor import (T, S, Size, DType, DT, Device, dev_of, Unsupported,
                     RepoError, ew, new, py2poly, dim2py, mk_scalar, FLOATS,
                     INTS, cat_of, promote, reshape, mkview, norm_dim,
                     unsqueeze, squeeze, select, slice_dim, permute, expand,
                     do_sum, do_red, dims_equal, broadcast_dims, check_dev,
                     sum_over, dim_vars, const_tensor, from_list, copy_of,
                     cast_val, bidx, fold, product)


def AN():
  return tt.AN


TORCH = {}      # torch.<name>
FUNC = {}       # torch.nn.functional.<name>


def reg(*names, method=True, ns=True, func=False):
  def deco(f):
    for n in names or (f.__name__,):
      if method:
        setattr(T, n, f)
      if ns:
        TORCH[n] = f
      if func:
        FUNC[n] = f
    return f
  return deco


def dtn(d, default=None):
  if d is None:
    return default
  if isinstance(d, DType):
    return d.name
  if isinstance(d, str):
    return d
  if d is builtins.float:
    return 'float32'
  if d is builtins.int:
    return 'int64'
  if d is builtins.bool:
    return 'bool'
  raise RepoError('TypeError', 'not a dtype: %r' % (d,))


def need_t(x, op):
  if not isinstance(x, T):
    raise RepoError('TypeError', '%s(): expected a Tensor, got %s' % (
        op, type(x).__name__))
  return x


def sizes_of(a):
  if len(a) == 1 and isinstance(a[0], (tuple, list)):
    a = a[0]
  out = []
  for s in a:
    if isinstance(s, T):
      out.append(py2poly(s))
    elif isinstance(s, (int, S)):
      out.append(py2poly(s))
    else:
      raise RepoError('TypeError', 'size must be int, got %s' % type(s).__name__)
  return out


def dkw(kw, ref=None):
  """dtype/device keyword defaults"""
  dt = dtn(kw.get('dtype'), ref._dt if ref is not None else None)
  dv = kw.get('device')
  dv = dev_of(dv) if dv is not None else (ref._dev if ref is not None
                                          else Device('cpu'))
  return dt, dv


# -------------------------------------------------------------- elementwise
def _binary(name, f, isbool=False, dunder=None, dtype=None, intdiv=False):
  def op(self, other, *a, **kw):
    if not isinstance(self, (T, int, float, bool, S)) or \
        not isinstance(other, (T, int, float, bool, S)):
      raise RepoError('TypeError', '%s: unsupported operand types %s, %s' % (
          name, type(self).__name__, type(other).__name__))
    alpha = kw.get('alpha')
    o = other
    if alpha is not None:
      o = TORCH['mul'](other, alpha)
    dt = dtype
    return ew(name, f, [self, o], dtype=dt, isbool=isbool)
  return op


def _div_true(a, b):
  AN().denoms.append((b, AN().where()))
  return a * tm.inv(b)


def _arith(name, f, dunders, isbool=False):
  op = _binary(name, f, isbool)
  TORCH[name] = op
  setattr(T, name, op)
  dn, rdn = dunders
  if dn:
    def d(self, o, _op=op):
      if not isinstance(o, (T, int, float, bool, S)):
        if o is None or isinstance(o, (str, dict)):
          raise RepoError('TypeError', 'unsupported operand type(s) for %s: '
                          'Tensor and %s' % (name, type(o).__name__))
        if isinstance(o, (list, tuple)):
          if self._isnp:
            o = from_list(o)
          else:
            raise RepoError('TypeError', 'Tensor %s %s' % (name, type(o).__name__))
        else:
          return NotImplemented
      return _op(self, o)
    setattr(T, dn, d)
  if rdn:
    def r(self, o, _op=op):
      if isinstance(o, (list, tuple)) and self._isnp:
        o = from_list(o)
      if not isinstance(o, (T, int, float, bool, S)):
        raise RepoError('TypeError', 'unsupported operand type(s) for %s' % name)
      return _op(o, self)
    setattr(T, rdn, r)

  def inplace(self, o, *a, _op=op, **kw):
    r = _op(self, o, *a, **kw)
    if cat_of(r._dt) > cat_of(self._dt):
      raise RepoError('RuntimeError', 'result type %s can\'t be cast to %s' % (
          r._dt, self._dt))
    if len(r._dims) != len(self._dims) or not all(
        dims_equal(x, y) for x, y in zip(r._dims, self._dims)):
      tt.shape_err(name + '_', self._dims, r._dims)
    tt.assign(self, r)
    return self
  setattr(T, name + '_', inplace)
  if dn and dn not in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    setattr(T, '__i' + dn[2:], inplace)


_arith('add', lambda a, b: a + b, ('__add__', '__radd__'))
_arith('sub', lambda a, b: a - b, ('__sub__', '__rsub__'))
_arith('mul', lambda a, b: tm.mul(a, b), ('__mul__', '__rmul__'))
TORCH['subtract'], TORCH['multiply'] = TORCH['sub'], TORCH['mul']
_arith('eq', lambda a, b: Eq(a - b), ('__eq__', None), True)
_arith('ne', lambda a, b: Not(Eq(a - b)), ('__ne__', None), True)
_arith('lt', lambda a, b: Gt(b - a), ('__lt__', None), True)
_arith('le', lambda a, b: Ge(b - a), ('__le__', None), True)
_arith('gt', lambda a, b: Gt(a - b), ('__gt__', None), True)
_arith('ge', lambda a, b: Ge(a - b), ('__ge__', None), True)
_arith('remainder', lambda a, b: Mod(a, b), ('__mod__', '__rmod__'))
TORCH['fmod_'] = None
_arith('minimum', lambda a, b: Fun('min2', a, b), (None, None))
_arith('maximum', lambda a, b: Fun('max2', a, b), (None, None))
for _n, _m in (('greater', 'gt'), ('greater_equal', 'ge'), ('less', 'lt'),
               ('less_equal', 'le'), ('not_equal', 'ne')):
  TORCH[_n] = TORCH[_m]
  setattr(T, _n, TORCH[_m])

T.__hash__ = lambda self: id(self)


def _bitwise(name, fb, fi, dunders):
  def op(self, other):
    args = [self, other]
    for x in args:
      if isinstance(x, T) and x._dt in FLOATS or isinstance(x, float):
        raise RepoError('RuntimeError', '%s not implemented for float' % name)
    dt = tt.result_dtype(args)
    f = fb if dt == 'bool' else fi
    return ew(name, f, args, dtype=dt)
  TORCH['bitwise_' + name] = op
  setattr(T, 'bitwise_' + name, op)
  setattr(T, dunders[0], op)
  setattr(T, dunders[1], lambda self, o: op(o, self))

  def ip(self, o):
    tt.assign(self, op(self, o))
    return self
  setattr(T, '__i' + dunders[0][2:], ip)
  setattr(T, 'bitwise_' + name + '_', ip)


_bitwise('or', Or, tm.BitOr, ('__or__', '__ror__'))
_bitwise('and', And, tm.BitAnd, ('__and__', '__rand__'))
_bitwise('xor', lambda a, b: a + b - tm.mul(a, b) * 2, tm.BitXor,
         ('__xor__', '__rxor__'))


def _shift(name, f, dunders):
  def op(self, other):
    args = [self, other]
    for x in args:
      if isinstance(x, T) and x._dt in FLOATS or isinstance(x, float):
        raise RepoError('RuntimeError', 'shift not implemented for float')
    dt = tt.result_dtype(args)
    r = ew(name, f, args, dtype=dt)
    if name == 'lshift' and dt in ('int32', 'int64') and r._st.const is None:
      tt.held(r)
    return r
  setattr(T, dunders[0], op)
  setattr(T, dunders[1], lambda self, o: op(o, self))
  TORCH['bitwise_' + ('left_shift' if name == 'lshift' else 'right_shift')] = op
  setattr(T, 'bitwise_' + ('left_shift' if name == 'lshift' else 'right_shift'), op)

  def ip(self, o):
    tt.assign(self, op(self, o))
    return self
  setattr(T, '__i' + dunders[0][2:], ip)


_shift('lshift', lambda a, b: tm.Shl(a, b), ('__lshift__', '__rlshift__'))
_shift('rshift', lambda a, b: tm.Shr(a, b), ('__rshift__', '__rrshift__'))


def _div(self, other, rounding_mode=None):
  args = [self, other]
  if rounding_mode is None:
    dt = tt.result_dtype(args)
    if cat_of(dt) < 2:
      dt = 'float64' if any(isinstance(a, T) and a._isnp for a in args) \
          else 'float32'
    return ew('div', _div_true, args, dtype=dt)
  if rounding_mode == 'floor':
    return ew('floor_divide', lambda a, b: Div(a, b), args)
  if rounding_mode == 'trunc':
    return ew('trunc_divide', lambda a, b: tm.TruncDiv(a, b), args)
  raise RepoError('ValueError', 'bad rounding_mode')


def _div_ip(self, other, rounding_mode=None):
  r = _div(self, other, rounding_mode)
  if cat_of(r._dt) > cat_of(self._dt):
    raise RepoError('RuntimeError', 'result type can\'t be cast')
  tt.assign(self, r)
  return self


for _n in ('div', 'divide', 'true_divide'):
  TORCH[_n] = _div
  setattr(T, _n, _div)
  setattr(T, _n + '_', _div_ip)
T.__truediv__ = lambda self, o: _div(self, o)
T.__rtruediv__ = lambda self, o: _div(o, self)
T.__itruediv__ = _div_ip
TORCH['floor_divide'] = lambda a, b: _div(a, b, 'floor')
T.floor_divide = lambda a, b: _div(a, b, 'floor')
T.__floordiv__ = lambda self, o: _div(self, o, 'floor')
T.__rfloordiv__ = lambda self, o: _div(o, self, 'floor')
T.__ifloordiv__ = lambda self, o: _div_ip(self, o, 'floor')


@reg('pow')
def _pow(self, e):
  if not isinstance(e, T):
    c = py2poly(e).const()
    if c is not None and c.denominator == 1 and c >= 0:
      return ew('pow', lambda a: tm.powp(a, int(c)), [self],
                dtype=tt.result_dtype([self, e]))
  return ew('pow', lambda a, b: Fun('pow', a, b), [self, e])


T.__pow__ = _pow
T.__rpow__ = lambda self, o: ew('pow', lambda a, b: Fun('pow', a, b), [o, self])


def _unary(name, f, floatout=False, dtype=None):
  def op(self, *a, **kw):
    if not isinstance(self, T):
      raise RepoError('TypeError', '%s(): argument must be Tensor, not %s' % (
          name, type(self).__name__))
    dt = dtype or (self._dt if not floatout or self._dt in FLOATS else 'float32')
    return ew(name, f, [self], dtype=dt)
  TORCH[name] = op
  setattr(T, name, op)

  def ip(self, *a, **kw):
    tt.assign(self, op(self, *a, **kw))
    return self
  setattr(T, name + '_', ip)
  TORCH[name + '_'] = ip


def _sign(a):
  return Gt(a) - Gt(-a)


_unary('neg', lambda a: -a)
_unary('abs', lambda a: Fun('abs', a))
_unary('sqrt', lambda a: Fun('sqrt', a), True)
def _rsqrt(a):
  AN().denoms.append((a, AN().where()))
  return tm.inv(Fun('sqrt', a))


_unary('rsqrt', _rsqrt, True)
_unary('exp', lambda a: Fun('exp', a), True)
_unary('log', lambda a: Fun('log', a), True)
_unary('sin', lambda a: Fun('sin', a), True)
_unary('cos', lambda a: Fun('cos', a), True)
_unary('tanh', lambda a: Fun('tanh', a), True)
_unary('sigmoid', lambda a: Fun('sigmoid', a), True)
_unary('floor', lambda a: tm.Floor(a))
_unary('ceil', lambda a: -tm.Floor(-a))
_unary('round', lambda a: tm.Floor(a + Fraction(1, 2)))
_unary('trunc', lambda a: tm.Trunc(a))
_unary('frac', lambda a: a - tm.Trunc(a))
_unary('square', lambda a: tm.mul(a, a))
_unary('reciprocal', lambda a: _div_true(ONE, a), True)
_unary('sign', _sign)
_unary('relu', lambda a: tm.mul(Gt(a), a))
_unary('isnan', lambda a: ZERO, dtype='bool')
_unary('isinf', lambda a: ZERO, dtype='bool')
_unary('isfinite', lambda a: ONE, dtype='bool')
TORCH['absolute'] = TORCH['abs']
TORCH['negative'] = TORCH['neg']
T.__neg__ = lambda self: TORCH['neg'](self)
T.__pos__ = lambda self: self
T.__abs__ = lambda self: TORCH['abs'](self)


def _as_bool(a):
  return a if tt.is01(a) else Not(Eq(a))


@reg('logical_not')
def _logical_not(self, **kw):
  return ew('logical_not', lambda a: Not(_as_bool(a)), [self], isbool=True)


def _ip(name, op):
  def f(self, *a, **kw):
    r = op(self, *a, **kw)
    tt.assign(self, r)
    return self
  setattr(T, name, f)


_ip('logical_not_', _logical_not)
TORCH['bitwise_not'] = lambda a: (_logical_not(a) if a._dt == 'bool' else
                                  ew('not', lambda x: -x - 1, [a]))
T.__invert__ = TORCH['bitwise_not']
T.bitwise_not = TORCH['bitwise_not']


@reg('logical_and')
def _logical_and(self, o, **kw):
  return ew('logical_and', lambda a, b: And(_as_bool(a), _as_bool(b)),
            [self, o], isbool=True)


@reg('logical_or')
def _logical_or(self, o, **kw):
  return ew('logical_or', lambda a, b: Or(_as_bool(a), _as_bool(b)),
            [self, o], isbool=True)


@reg('logical_xor')
def _logical_xor(self, o, **kw):
  return ew('logical_xor', lambda a, b: _as_bool(a) + _as_bool(b) -
            tm.mul(_as_bool(a), _as_bool(b)) * 2, [self, o], isbool=True)


_ip('logical_and_', _logical_and)
_ip('logical_or_', _logical_or)


@reg('clamp', 'clip')
def _clamp(self, min=None, max=None, **kw):
  args, f = [self], None
  r = self
  if min is not None:
    r = ew('clamp', lambda a, b: Fun('max2', a, b), [r, min])
  if max is not None:
    r = ew('clamp', lambda a, b: Fun('min2', a, b), [r, max])
  return r


T.clamp_min = lambda self, m: _clamp(self, min=m)
T.clamp_max = lambda self, m: _clamp(self, max=m)
TORCH['clamp_min'] = lambda t, m: _clamp(t, min=m)
TORCH['clamp_max'] = lambda t, m: _clamp(t, max=m)
_ip('clamp_', _clamp)
_ip('clamp_min_', lambda self, m: _clamp(self, min=m))
_ip('clamp_max_', lambda self, m: _clamp(self, max=m))


@reg('where', method=False)
def _where(c, a=None, b=None):
  if a is None:
    return tuple(tt.mask_indices(c)[0])
  if c._dt != 'bool':
    raise RepoError('RuntimeError', 'where expected condition to be boolean')
  dt = tt.result_dtype([a, b])
  return ew('where', lambda x, y, z: Ite(x, y, z), [c, a, b], dtype=dt)


T.where = lambda self, c, other: _where(c, self, other)


@reg('masked_fill')
def _masked_fill(self, mask, value):
  if mask._dt != 'bool':
    raise RepoError('RuntimeError', 'masked_fill only supports boolean masks')
  return ew('masked_fill', lambda x, c, v: Ite(c, v, x), [self, mask, value],
            dtype=self._dt)


_ip('masked_fill_', _masked_fill)


@reg('addcmul')
def _addcmul(self, a, b, value=1):
  return self + TORCH['mul'](TORCH['mul'](a, b), value)


@reg('lerp')
def _lerp(self, e, w):
  return self + TORCH['mul'](TORCH['sub'](e, self), w)


# ------------------------------------------------------------------ dtypes
FPREC = {'float64': 53, 'float32': 24, 'float16': 11, 'bfloat16': 8}


def to_dtype(t, dt):
  if t._dt == dt:
    return t
  f = t._snap()
  r = new(t._dims, dt, t._dev, lambda idx: cast_val(f(idx), dt), fac=dict(t._fac))
  r._isnp = t._isnp
  if dt in tt.LIMITS and dt != 'int64' and t._dt != 'bool' and (t._dt in FLOATS or t._dt == 'int64' or dt != 'int32'):
    tt.held(r)
  if t._st.const:
    fold(r)
  if t._st.const is None and dt in FPREC and t._dt != 'bool' and t._dt not in ('uint8', 'int8') and \
      FPREC[dt] < FPREC.get(t._dt, 24) and len(AN().narrows) < 100:
    AN().narrows.append((t, f, t._dt, dt, AN().where()))
  return r


def to_device(t, dev):
  if t._dev == dev:
    return t
  if t._dev.type == dev.type and (dev.index is None or t._dev.index is None):
    return t
  r = copy_of(t)
  r._dev = dev
  r._st.const = t._st.const if t._view is None else None
  r._isparam = False
  return r


def _to(self, *args, **kw):
  dt, dv = kw.get('dtype'), kw.get('device')
  for i, a in enumerate(args):
    if isinstance(a, DType):
      dt = a
    elif isinstance(a, T):
      dt, dv = a.dtype, a._dev
    elif isinstance(a, (str, Device)) or (isinstance(a, int) and i == 0 and
                                          not isinstance(a, bool)):
      dv = a
    elif isinstance(a, bool) or a is None:
      pass
    else:
      raise RepoError('TypeError', 'to(): bad argument %r' % (a,))
  r = self
  if dv is not None:
    r = to_device(r, dev_of(dv))
  if dt is not None:
    r = to_dtype(r, dtn(dt))
  if kw.get('copy') and r is self:
    r = copy_of(r)
  return r


T.to = _to
T.type = lambda self, d=None: _to(self, d)
T.type_as = lambda self, o: to_dtype(self, o._dt)
T.float = lambda self: to_dtype(self, 'float32')
T.double = lambda self: to_dtype(self, 'float64')
T.half = lambda self: to_dtype(self, 'float16')
T.bfloat16 = lambda self: to_dtype(self, 'bfloat16')
T.long = lambda self: to_dtype(self, 'int64')
T.int = lambda self: to_dtype(self, 'int32')
T.short = lambda self: to_dtype(self, 'int16')
T.byte = lambda self: to_dtype(self, 'uint8')
T.bool = lambda self: to_dtype(self, 'bool')
T.cpu = lambda self: to_device(self, Device('cpu'))
T.cuda = lambda self, device=None, non_blocking=False: to_device(
    self, dev_of(device if device is not None else 'cuda'))
T.pin_memory = lambda self: self
T.is_floating_point = lambda self: self._dt in FLOATS
TORCH['is_floating_point'] = lambda t: t._dt in FLOATS
TORCH['is_tensor'] = lambda x: isinstance(x, T)


def _numpy(self):
  if self._dev.type != 'cpu':
    raise RepoError('TypeError', 'can\'t convert a cuda tensor to numpy')
  if self.requires_grad:
    raise RepoError('RuntimeError', 'Can\'t call numpy() on Tensor that '
                    'requires grad')
  r = mkview(self, self._dims, lambda i: i, lambda s: (ONE, s), dict(self._fac))
  r._isnp = True
  return r


T.numpy = _numpy


def _from_numpy(a):
  if not isinstance(a, T):
    raise RepoError('TypeError', 'expected np.ndarray (got %s)' %
                    type(a).__name__)
  r = mkview(a, a._dims, lambda i: i, lambda s: (ONE, s), dict(a._fac))
  r._isnp = False
  return r


TORCH['from_numpy'] = _from_numpy


@reg('clone')
def _clone(self, **kw):
  r = copy_of(self)
  r.requires_grad = self.requires_grad
  return r


T.copy = _clone
T.contiguous = lambda self, **kw: (copy_of(self) if self._view is not None
                                   else self)


@reg('detach')
def _detach(self):
  r = mkview(self, self._dims, lambda i: i, lambda s: (ONE, s), dict(self._fac))
  r.requires_grad = False
  return r


T.detach_ = lambda self: self


def _requires_grad_(self, v=True):
  self.requires_grad = v
  return self


T.requires_grad_ = _requires_grad_
T.backward = lambda self, *a, **k: None
T.retain_grad = lambda self: None
T.register_hook = lambda self, h: None


def _item(self):
  return mk_scalar(py2poly(self), isbool=self._dt == 'bool',
                   isfloat=self._dt in FLOATS)


T.item = _item


def _tolist(self):
  if not self._dims:
    return _item(self)
  n = dim2py(self._dims[0])
  if isinstance(n, S):
    raise Unsupported('tolist of a symbolic dimension')
  return [_tolist(self[i]) for i in range(n)]


T.tolist = _tolist
T.dim = lambda self: len(self._dims)
T.ndimension = T.dim


def _size(self, d=None):
  if d is None:
    return self.shape
  return dim2py(self._dims[norm_dim(d, len(self._dims))])


T.size = _size
T.numel = lambda self: dim2py(product(self._dims))
T.nelement = T.numel
TORCH['numel'] = lambda t: t.numel()
T.element_size = lambda self: {'float64': 8, 'int64': 8, 'float32': 4,
                               'int32': 4}.get(self._dt, 2)
T.is_contiguous = lambda self, **kw: self._view is None


# ---------------------------------------------------------------- factories
def filled(sizes, val, dt, dv):
  p = P(val) if not isinstance(val, (T, S)) else py2poly(val)
  t = new(sizes, dt, dv, lambda idx: p)
  return t if p.const() is None or any(d.const() is None for d in t._dims) \
      else fold(t, 256)


def undef_tensor(sizes, dt, dv):
  n = next(tm._fresh)
  name = 'undef%d' % n
  tm.declare(name, 'f' if dt in FLOATS else 'i')
  return new(sizes, dt, dv, lambda idx: tm.App(name, *idx))


def fdt(kw):
  return dtn(kw.get('dtype'), 'float32')


def _reqg(t, kw):
  if kw.get('requires_grad'):
    t.requires_grad = True
  return t


TORCH['zeros'] = lambda *s, **kw: _reqg(filled(sizes_of(s or (kw['size'],)), 0, fdt(kw), dev_of(kw.get('device'))), kw)
TORCH['ones'] = lambda *s, **kw: _reqg(filled(sizes_of(s or (kw['size'],)), 1, fdt(kw), dev_of(kw.get('device'))), kw)
TORCH['empty'] = lambda *s, **kw: _reqg(undef_tensor(sizes_of(s or (kw['size'],)), fdt(kw), dev_of(kw.get('device'))), kw)


def _full(size, fill_value, **kw):
  dt = dtn(kw.get('dtype'))
  if dt is None:
    dt = 'bool' if isinstance(fill_value, bool) else \
        'int64' if isinstance(fill_value, int) else 'float32'
    if isinstance(fill_value, T):
      dt = fill_value._dt
  return filled(sizes_of([size] if not isinstance(size, (tuple, list)) else size),
                fill_value, dt, dev_of(kw.get('device')))


TORCH['full'] = _full


def _like(val):
  def f(t, **kw):
    need_t(t, 'zeros_like')
    dt, dv = dkw(kw, t)
    r = filled(t._dims, val, dt, dv) if val is not None else \
        undef_tensor(t._dims, dt, dv)
    return _reqg(r, kw)
  return f


TORCH['zeros_like'] = _like(0)
TORCH['ones_like'] = _like(1)
TORCH['empty_like'] = _like(None)
TORCH['full_like'] = lambda t, v, **kw: filled(t._dims, v, *dkw(kw, t))
T.new_zeros = lambda self, *s, **kw: filled(sizes_of(s or (kw['size'],)), 0, *dkw(kw, self))
T.new_ones = lambda self, *s, **kw: filled(sizes_of(s or (kw['size'],)), 1, *dkw(kw, self))
T.new_empty = lambda self, *s, **kw: undef_tensor(sizes_of(s or (kw['size'],)), *dkw(kw, self))
T.new_full = lambda self, size, fill_value, **kw: filled(sizes_of([size] if not isinstance(size, (tuple, list)) else size), fill_value, *dkw(kw, self))
T.new_tensor = lambda self, d, **kw: _tensor(d, **dict(
    dict(dtype=self.dtype, device=self._dev), **kw))


def _tensor(data, dtype=None, device=None, requires_grad=False, **kw):
  dt = dtn(dtype)
  dv = dev_of(device)
  if isinstance(data, T):
    r = copy_of(data)
    r._isnp = False
    if device is not None:
      r._dev = dv
    if dt:
      r = to_dtype(r, dt)
  elif isinstance(data, (list, tuple, range)):
    data = list(data)
    r = from_list(data, dt, dv)
  else:
    p = py2poly(data)
    if dt is None:
      dt = 'bool' if isinstance(data, bool) or isinstance(data, S) and data.isbool \
          else ('int64' if p.isint and not isinstance(data, float) else 'float32')
    r = new([], dt, dv, lambda idx: cast_val(p, dt))
    if p.const() is not None:
      fold(r)
  r.requires_grad = bool(requires_grad)
  return r


TORCH['tensor'] = _tensor
TORCH['as_tensor'] = lambda d, dtype=None, device=None: (
    _to(d, *( [dtype] if dtype else []), **({'device': device} if device else {}))
    if isinstance(d, T) and not d._isnp else _tensor(d, dtype, device))
TORCH['scalar_tensor'] = _tensor


def _Tensor(*a, **kw):
  """torch.Tensor(...) constructor (float32, cpu)."""
  if len(a) == 1 and isinstance(a[0], (list, tuple)) and not isinstance(a[0], Size):
    return from_list(a[0], 'float32')
  if len(a) == 1 and isinstance(a[0], T):
    if a[0]._isnp:
      return to_dtype(_from_numpy(a[0]), 'float32')
    return mkview(a[0], a[0]._dims, lambda i: i, lambda s: (ONE, s))
  if len(a) == 0:
    return filled([ZERO], 0, 'float32', Device('cpu'))
  return undef_tensor(sizes_of(a), 'float32', Device('cpu'))


def _int_tensor(dt):
  def f(*a, **kw):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
      return from_list(a[0], dt)
    return undef_tensor(sizes_of(a), dt, Device('cpu'))
  return f


def _arange(*a, **kw):
  vals = [py2poly(x) for x in a]
  for k, nm in ((0, 'start'), (1, 'end'), (2, 'step')):
    pass
  start, step = ZERO, ONE
  if 'end' in kw:
    end = py2poly(kw['end'])
    start = py2poly(kw['start']) if 'start' in kw else (vals[0] if vals else ZERO)
  elif len(vals) == 1:
    end = vals[0]
  else:
    start, end = vals[0], vals[1]
  if len(vals) == 3:
    step = vals[2]
  if 'step' in kw:
    step = py2poly(kw['step'])
  dt = dtn(kw.get('dtype'))
  if dt is None:
    fl = any(isinstance(x, float) or isinstance(x, T) and x._dt in FLOATS
             for x in a)
    dt = 'float32' if fl else 'int64'
  if step == ONE:
    n = end - start
  else:
    n = -Div(-(end - start), step)
  c = n.const()
  if c is not None:
    n = P(max(math.ceil(c), 0))
  elif not tm.ge0(n):
    pass
  t = new([n], dt, dev_of(kw.get('device')),
          lambda idx: start + tm.mul(step, idx[0]))
  return fold(t)


TORCH['arange'] = _arange
TORCH['range'] = lambda a, b, **kw: _arange(a, b + 1, **kw)


def _linspace(a, b, n, **kw):
  a, b = py2poly(a), py2poly(b)
  t = new([P(n)], fdt(kw), dev_of(kw.get('device')),
          lambda i: a + tm.mul(b - a, i[0]) * Fraction(1, max(n - 1, 1)))
  return fold(t)


TORCH['linspace'] = _linspace


def _eye(n, m=None, **kw):
  n, m = py2poly(n), py2poly(m if m is not None else n)
  return fold(new([n, m], fdt(kw), dev_of(kw.get('device')),
                  lambda i: Eq(i[0] - i[1])))


TORCH['eye'] = _eye


def rand_tensor(sizes, dt, dv, lo=0, hi=1, isint=False):
  AN().counter += 1
  name = 'rand%d' % AN().counter
  tm.declare(name, 'i' if isint else 'f', lo=lo, hi=hi)
  sizes = list(sizes)
  AN().event('random', name=name, dims=[py2poly(x) for x in sizes])
  return new(sizes, dt, dv, lambda idx: tm.App(name, *idx))


# uniform samples are multiples of the unit in [0, 1)
UNIT = {'float64': 2 ** 53, 'float16': 2 ** 11, 'bfloat16': 2 ** 8}


def rand01(sizes, dt, dv):
  return rand_tensor(sizes, dt, dv, 0, 1 - Fraction(1, UNIT.get(dt, 2 ** 24)))


TORCH['rand'] = lambda *s, **kw: rand01(sizes_of(s), fdt(kw), dev_of(kw.get('device')))
TORCH['randn'] = lambda *s, **kw: rand_tensor(sizes_of(s), fdt(kw), dev_of(kw.get('device')), None, None)
TORCH['rand_like'] = lambda t, **kw: rand01(t._dims, *dkw(kw, t))
TORCH['randn_like'] = lambda t, **kw: rand_tensor(t._dims, *dkw(kw, t), None, None)


def _randint(*a, **kw):
  low, high = kw.get('low', 0), kw.get('high')
  size = kw.get('size')
  a = list(a)
  if size is None:
    if not a:
      raise RepoError('TypeError', 'randint() received an invalid combination of arguments')
    size = a.pop()
  if len(a) == 2:
    low, high = a
  elif len(a) == 1:
    if 'low' in kw:
      high = a[0]
    else:
      high = a[0]
  lo, hi = py2poly(low), py2poly(high)
  return rand_tensor(sizes_of([size] if not isinstance(size, (tuple, list)) else size),
                     dtn(kw.get('dtype'), 'int64'), dev_of(kw.get('device')),
                     lo, hi - 1, True)


TORCH['randint'] = _randint


def _randperm(n, **kw):
  p = py2poly(n)
  return rand_tensor([p], 'int64', dev_of(kw.get('device')), 0, p - 1, True)


TORCH['randperm'] = _randperm


def _bernoulli(t, p=None, **kw):
  u = rand_tensor(t._dims, t._dt, t._dev)
  return _cast(u < (t if p is None else p), t._dt)


def _cast(t, dt):
  return t.to(tt.DT[dt]) if t._dt != dt else t


TORCH['bernoulli'] = _bernoulli


def _rand_ip(lo, hi):
  def f(self, *a, **kw):
    l, h = lo, hi
    if len(a) == 2 and lo is not None:
      l, h = a
    tt.assign(self, rand_tensor(self._dims, self._dt, self._dev, l, h))
    return self
  return f


T.uniform_ = _rand_ip(0, 1)
T.normal_ = _rand_ip(None, None)
T.bernoulli_ = lambda self, p=0.5, **kw: (tt.assign(self, _bernoulli(self, p)), self)[1]


def _fill_(self, v):
  tt.assign(self, v)
  return self


T.fill_ = _fill_
T.zero_ = lambda self: _fill_(self, 0)


def _copy_(self, o, non_blocking=False):
  # copy_ converts dtype and device
  if isinstance(o, T):
    o2 = copy_of(o)
    o2._dev = self._dev
    o = to_dtype(o2, self._dt)
  tt.assign(self, o)
  return self


T.copy_ = _copy_


# -------------------------------------------------------------------- views
@reg('unsqueeze')
def _unsqueeze(self, dim):
  return unsqueeze(self, dim)


@reg('squeeze')
def _squeeze(self, dim=None):
  return squeeze(self, dim)


T.view = lambda self, *s: (to_dtype(self, dtn(s[0])) if s and isinstance(s[0], DType)
                           else reshape(self, _szs(s)))


def _szs(s):
  if len(s) == 1 and isinstance(s[0], (tuple, list)):
    s = s[0]
  for x in s:
    if isinstance(x, (float, str)) or x is None:
      raise RepoError('TypeError', 'view/reshape: size must be int')
  return list(s)


@reg('reshape')
def _reshape(self, *s, **kw):
  if 'shape' in kw:
    s = (kw['shape'],)
  return reshape(self, _szs(s))


T.view_as = lambda self, o: reshape(self, list(o.shape))
T.reshape_as = T.view_as


@reg('flatten')
def _flatten(self, start_dim=0, end_dim=-1):
  n = len(self._dims)
  if n == 0:
    return reshape(self, [1])
  a, b = norm_dim(start_dim, n), norm_dim(end_dim, n)
  if a > b:
    raise RepoError('RuntimeError', 'flatten() has invalid args')
  sz = list(self._dims[:a]) + [product(self._dims[a:b + 1])] + \
      list(self._dims[b + 1:])
  return reshape(self, [dim2py(x) for x in sz])


TORCH['ravel'] = _flatten
T.ravel = _flatten


def _unflatten(self, dim, sizes):
  n = len(self._dims)
  d = norm_dim(dim, n)
  sz = [dim2py(x) for x in self._dims[:d]] + list(sizes) + \
      [dim2py(x) for x in self._dims[d + 1:]]
  return reshape(self, sz)


T.unflatten = _unflatten


@reg('t')
def _t(self):
  if len(self._dims) < 2:
    return self
  if len(self._dims) > 2:
    raise RepoError('RuntimeError', 't() expects a tensor with <= 2 dimensions')
  return permute(self, [1, 0])


@reg('transpose', 'swapaxes', 'swapdims')
def _transpose(self, a, b):
  n = len(self._dims)
  a, b = norm_dim(a, n), norm_dim(b, n)
  p = list(range(n))
  p[a], p[b] = p[b], p[a]
  return permute(self, p)


def _permute(self, *ps):
  if len(ps) == 1 and isinstance(ps[0], (tuple, list)):
    ps = ps[0]
  return permute(self, list(ps))


T.permute = _permute
TORCH['permute'] = _permute
TORCH['movedim'] = lambda t, a, b: _movedim(t, a, b)


def _movedim(t, a, b):
  n = len(t._dims)
  a, b = norm_dim(a, n), norm_dim(b, n)
  p = [k for k in range(n) if k != a]
  p.insert(b, a)
  return permute(t, p)


T.movedim = _movedim
T.expand = lambda self, *s: expand(self, _szs(s))
T.expand_as = lambda self, o: expand(self, list(o.shape))
T.broadcast_to = T.expand
TORCH['broadcast_to'] = lambda t, s: expand(t, list(s))


def _narrow(self, dim, start, length):
  return slice_dim(self, dim, start, start + length)


T.narrow = _narrow
TORCH['narrow'] = _narrow
T.select = lambda self, dim, index: select(self, dim, index)
TORCH['select'] = T.select
T.unbind = lambda self, dim=0: tuple(
    select(self, dim, i) for i in range(_conc(self._dims[norm_dim(dim, len(self._dims))])))
TORCH['unbind'] = T.unbind


def _conc(p):
  c = P(p).const()
  if c is None:
    raise Unsupported('symbolic count')
  return int(c)


@reg('split')
def _split(self, size, dim=0):
  n = len(self._dims)
  d = norm_dim(dim, n)
  total = self._dims[d]
  if isinstance(size, T) and len(size._dims) == 1:
    raise RepoError('TypeError', 'split(): argument split_sizes must be ints')
  if isinstance(size, (list, tuple)):
    for s in size:
      if isinstance(s, T):
        if len(s._dims) > 0:
          raise RepoError('TypeError', 'split(): sizes must be ints')
    ps = [py2poly(s) for s in size]
    for p in ps:
      c = p.const()
      if c is not None and c < 0:
        raise RepoError('RuntimeError', 'split_with_sizes expects non-negative')
    if not dims_equal(tm.addn(ps), total):
      raise RepoError('ShapeError', 'split sizes %s do not sum to %r' % (ps, total))
    out, pos = [], ZERO
    for p in ps:
      out.append(slice_dim(self, d, mk_scalar(pos), mk_scalar(pos + p)))
      pos = pos + p
    return tuple(out)
  k = py2poly(size)
  n_ = -Div(-total, k)
  cnt = _conc(n_)
  return tuple(slice_dim(self, d, mk_scalar(k * i), mk_scalar(k * (i + 1)))
               for i in range(max(cnt, 1)))


TORCH['split_with_sizes'] = _split
T.split_with_sizes = _split


@reg('chunk')
def _chunk(self, chunks, dim=0):
  d = norm_dim(dim, len(self._dims))
  k = -Div(-self._dims[d], P(chunks))
  return _split(self, mk_scalar(k), dim)


@reg('tensor_split')
def _tensor_split(self, sections, dim=0):
  raise Unsupported('tensor_split')


@reg('repeat', ns=False)
def _repeat(self, *s):
  s = [py2poly(x) for x in _szs(s)]
  t = self
  while len(t._dims) < len(s):
    t = unsqueeze(t, 0)
  if len(s) < len(t._dims):
    raise RepoError('RuntimeError', 'repeat: too few dims')
  f = t._snap()
  dims = tuple(d * k for d, k in zip(t._dims, s))

  def fn(idx):
    out = []
    for d, k, i in zip(t._dims, s, idx):
      if k == ONE:
        out.append(i)
      elif d == ONE:
        out.append(ZERO)
      else:
        out.append(Mod(i, d))
    return f(tuple(out))
  fac = {}
  for j, (d, k) in enumerate(zip(t._dims, s)):
    if k == ONE and j in t._fac:
      fac[j] = t._fac[j]
    elif k != ONE and d != ONE:
      fac[j] = [k, d]
  r = new(dims, t._dt, t._dev, fn, fac=fac)
  if t._st.const:
    fold(r)
  return r


TORCH['tile'] = lambda t, s: _repeat(t, *s)
T.tile = _repeat


@reg('repeat_interleave')
def _repeat_interleave(self, repeats, dim=None, output_size=None):
  t = self
  if dim is None:
    t = _flatten(t)
    dim = 0
  d = norm_dim(dim, len(t._dims))
  if isinstance(repeats, T) and len(repeats._dims) > 0:
    if len(repeats._dims) == 1 and repeats._dims[0] != ONE:
      ci = repeats._const_items()
      if ci is None:
        # value at position p: index of the segment containing p
        f, rf = t._snap(), repeats._snap()
        n = repeats._dims[0]
        total = sum_over(n, lambda i: rf((i,)))

        def seg(p):
          # number of segments ending at or before p
          v, w = fresh(n), None

          def body(i):
            u = fresh(n)
            cum = mk_sum([u], tm.mul(Ge(i - P(u)), rf((P(u),))))
            return Ge(p - cum)
          return mk_sum([v], body(P(v)))
        return new(t._dims[:d] + (total,) + t._dims[d + 1:], t._dt, t._dev,
                   lambda idx: f(tuple(idx[:d]) + (seg(idx[d]),) + tuple(idx[d + 1:])))
      outs = []
      for i, r in enumerate(ci[1]):
        for _ in range(int(r)):
          outs.append(slice_dim(t, d, i, i + 1))
      return _cat(outs, d)
    repeats = repeats.reshape(-1)[0]
  k = py2poly(repeats)
  f = t._snap()
  return new(t._dims[:d] + (t._dims[d] * k,) + t._dims[d + 1:], t._dt, t._dev,
             lambda idx: f(tuple(idx[:d]) + (Div(idx[d], k),) + tuple(idx[d + 1:])),
             fac={d: [t._dims[d], k]})


@reg('flip', 'fliplr')
def _flip(self, *dims):
  if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
    dims = dims[0]
  n = len(self._dims)
  ds = [norm_dim(d, n) for d in dims]
  f = self._snap()
  for d in ds:
    if self._dims[d].const() is None:
      AN().event('row_reduce', op='flip')
  return new(self._dims, self._dt, self._dev, lambda idx: f(tuple(
      self._dims[k] - 1 - i if k in ds else i for k, i in enumerate(idx))))


@reg('roll')
def _roll(self, shifts, dims=None):
  if dims is None:
    raise Unsupported('roll without dims')
  if not isinstance(shifts, (tuple, list)):
    shifts, dims = [shifts], [dims]
  f = self._snap()
  n = len(self._dims)
  mp = {norm_dim(d, n): py2poly(s) for s, d in zip(shifts, dims)}
  for d in mp:
    if self._dims[d].const() is None:
      AN().event('row_reduce', op='roll')
  return new(self._dims, self._dt, self._dev, lambda idx: f(tuple(
      Mod(i - mp[k], self._dims[k]) if k in mp else i
      for k, i in enumerate(idx))))


@reg('cat', 'concat', 'concatenate', method=False)
def _cat(ts, dim=0, **kw):
  if 'axis' in kw:
    dim = kw['axis']
  if isinstance(ts, T):
    raise RepoError('TypeError', 'cat(): argument must be a tuple of Tensors')
  ts = list(ts)
  if not ts:
    raise RepoError('RuntimeError', 'torch.cat(): expected a non-empty list')
  for t in ts:
    if not isinstance(t, T):
      raise RepoError('TypeError', 'expected Tensor as element of cat, got %s' %
                      type(t).__name__)
  ts = [t for t in ts if not (len(t._dims) == 1 and t._dims[0] == ZERO)] or ts[:1]
  dev = check_dev('cat', ts, allow_scalar=False)
  n = len(ts[0]._dims)
  d = norm_dim(dim, n)
  dt = ts[0]._dt
  for t in ts[1:]:
    if len(t._dims) != n:
      tt.shape_err('cat', *[x._dims for x in ts])
    for k in range(n):
      if k != d and not dims_equal(t._dims[k], ts[0]._dims[k]):
        tt.shape_err('cat', *[x._dims for x in ts])
    dt = promote(dt, t._dt)
  if len(ts) == 1:
    return copy_of(ts[0])
  fs = [t._snap() for t in ts]
  offs = [ZERO]
  for t in ts:
    offs.append(offs[-1] + t._dims[d])
  dims = ts[0]._dims[:d] + (offs[-1],) + ts[0]._dims[d + 1:]

  def fn(idx):
    i = idx[d]
    r = None
    for k in range(len(ts) - 1, -1, -1):
      lt = Ge(offs[k + 1] - 1 - i) if k < len(ts) - 1 else ONE
      if lt.const() == 0:
        continue
      v = None
      if r is None or lt.const() == 1:
        if k and Ge(offs[k] - 1 - i).const() == 1:
          continue
        r = fs[k](tuple(idx[:d]) + (i - offs[k],) + tuple(idx[d + 1:]))
      else:
        v = fs[k](tuple(idx[:d]) + (i - offs[k],) + tuple(idx[d + 1:]))
        r = Ite(lt, v, r)
    return r
  r = new(dims, dt, dev, fn)
  r._isnp = ts[0]._isnp
  if all(t._st.const for t in ts):
    fold(r)
  return r


@reg('stack', method=False)
def _stack(ts, dim=0, **kw):
  if 'axis' in kw:
    dim = kw['axis']
  ts = list(ts)
  for t in ts:
    if not isinstance(t, T):
      raise RepoError('TypeError', 'expected Tensor as element of stack')
  for t in ts[1:]:
    if len(t._dims) != len(ts[0]._dims) or not all(
        dims_equal(a, b) for a, b in zip(t._dims, ts[0]._dims)):
      tt.shape_err('stack', *[x._dims for x in ts])
  return _cat([unsqueeze(t, dim) for t in ts], dim)


TORCH['hstack'] = lambda ts: _cat(ts, 1 if len(ts[0]._dims) > 1 else 0)
TORCH['vstack'] = lambda ts: _cat([unsqueeze(t, 0) if len(t._dims) == 1 else t
                                   for t in ts], 0)
TORCH['column_stack'] = lambda ts: _cat([unsqueeze(t, 1) if len(t._dims) == 1
                                         else t for t in ts], 1)


def _meshgrid(*ts, indexing=None):
  if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
    ts = ts[0]
  n = len(ts)
  if indexing not in (None, 'ij', 'xy'):
    raise RepoError('RuntimeError', 'meshgrid indexing')
  check_dev('meshgrid', ts, allow_scalar=False)
  if len(set(t._dt for t in ts)) > 1:
    raise RepoError('RuntimeError', 'meshgrid expects all tensors to have the same dtype')
  order = list(range(n))
  if indexing == 'xy' and n >= 2:
    order[0], order[1] = 1, 0
  dims = [ts[k]._dims[0] if ts[k]._dims else ONE for k in order]
  out = []
  for k, t in enumerate(ts):
    pos = order.index(k)
    f = t._snap()
    r = new(dims, t._dt, t._dev,
            (lambda f, pos: lambda idx: f((idx[pos],)))(f, pos))
    if t._st.const:
      fold(r)
    out.append(r)
  return tuple(out)


TORCH['meshgrid'] = _meshgrid


def _cartesian_prod(*ts):
  g = _meshgrid(*ts, indexing='ij')
  return _stack([_flatten(x) for x in g], -1 if False else 1)


TORCH['cartesian_prod'] = _cartesian_prod


# --------------------------------------------------------------- reductions
@reg('sum', 'nansum')
def _sum(self, dim=None, keepdim=False, dtype=None, axis=None, keepdims=False):
  if axis is not None:
    dim = axis
  return do_sum(self, dim, keepdim or keepdims, dtn(dtype))


@reg('mean')
def _mean(self, dim=None, keepdim=False, dtype=None, axis=None, keepdims=False):
  if axis is not None:
    dim = axis
  if cat_of(self._dt) < 2 and not self._isnp and dtype is None:
    raise RepoError('RuntimeError', 'mean(): could not infer output dtype')
  ds, keep, dims = tt.reduce_dims(self, dim, False)
  n = product([self._dims[d] for d in ds])
  s = do_sum(self, dim, keepdim or keepdims)
  return ew('mean', lambda a: a * tm.inv(n), [s])


@reg('prod')
def _prod(self, dim=None, keepdim=False, dtype=None):
  return do_red('prod', self, dim, keepdim, dtn(dtype))


@reg('any')
def _any(self, dim=None, keepdim=False, axis=None):
  return do_red('any', self, axis if axis is not None else dim, keepdim)


@reg('all')
def _all(self, dim=None, keepdim=False, axis=None):
  return do_red('all', self, axis if axis is not None else dim, keepdim)


class ValInd(tuple):
  @property
  def values(self):
    return self[0]

  @property
  def indices(self):
    return self[1]


def _minmax(op):
  def f(self, dim=None, keepdim=False, axis=None, **kw):
    if isinstance(dim, T):
      return TORCH['maximum' if op == 'max' else 'minimum'](self, dim)
    if axis is not None:
      dim = axis
    if dim is None:
      return do_red(op, self)
    if self._isnp:
      return do_red(op, self, dim, keepdim)
    return ValInd((do_red(op, self, dim, keepdim),
                   do_red('arg' + op, self, dim, keepdim)))
  TORCH[op] = f
  setattr(T, op, f)
  g = lambda self, dim=None, keepdim=False: do_red(op, self, dim, keepdim)
  TORCH['a' + op] = g
  setattr(T, 'a' + op, g)
  h = lambda self, dim=None, keepdim=False: do_red('arg' + op, self, dim, keepdim)
  TORCH['arg' + op] = h
  setattr(T, 'arg' + op, h)


_minmax('max')
_minmax('min')


@reg('norm')
def _norm(self, p=2, dim=None, keepdim=False, **kw):
  if p not in (2, 'fro', 2.0):
    raise Unsupported('norm p')
  return TORCH['sqrt'](do_sum(self * self, dim, keepdim))


@reg('var')
def _var(self, dim=None, unbiased=True, keepdim=False, **kw):
  raise Unsupported('var')


@reg('std')
def _std(self, *a, **kw):
  raise Unsupported('std')


@reg('count_nonzero')
def _count_nonzero(self, dim=None):
  return do_sum(to_dtype(self, 'bool'), dim)


@reg('cumsum')
def _cumsum(self, dim=0, dtype=None, axis=None):
  if axis is not None:
    dim = axis
  d = norm_dim(dim, max(len(self._dims), 1))
  f = self._snap()
  dt = dtn(dtype) or ('int64' if cat_of(self._dt) < 2 else self._dt)
  if self._dims[d].const() is None:
    AN().event('row_reduce', op='cumsum')
  n = self._dims[d].const()

  def fn(idx):
    c = idx[d].const()
    if n is not None and n <= (8 if c is None else 512):
      rng = range(int(c) + 1) if c is not None else range(int(n))
      tot = []
      for j in rng:
        v = f(tuple(idx[:d]) + (P(j),) + tuple(idx[d + 1:]))
        tot.append(v if c is not None else tm.mul(Ge(idx[d] - j), v))
      return tm.addn(tot)
    v = fresh(self._dims[d])
    return mk_sum([v], tm.mul(Ge(idx[d] - P(v)),
                              f(tuple(idx[:d]) + (P(v),) + tuple(idx[d + 1:]))))
  r = new(self._dims, dt, self._dev, fn)
  if self._st.const:
    fold(r)
  return r


# ------------------------------------------------------------ linear algebra
def contract(op, a, b, da, db):
  """sum over dim da of a and dim db of b (2-d operands)."""


@reg('mm')
def _mm(a, b, **kw):
  if len(a._dims) != 2 or len(b._dims) != 2:
    raise RepoError('RuntimeError', 'mm(): tensors must be 2-D')
  return _einsum('ik,kj->ij', a, b)


def _float_match(op, ts):
  ds = set(t._dt for t in ts)
  if len(ds) > 1:
    if AN().autocast:
      return 'float16'
    raise RepoError('DtypeError', '%s: expected operands with the same dtype, '
                    'got %s' % (op, sorted(ds)))
  return ts[0]._dt


def _einsum(eq, *ts):
  if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
    ts = tuple(ts[0])
  eq = eq.replace(' ', '')
  if '...' in eq:
    raise Unsupported('einsum ellipsis')
  lhs, _, rhs = eq.partition('->')
  ins = lhs.split(',')
  if '->' not in eq:
    cnt = {}
    for c in lhs.replace(',', ''):
      cnt[c] = cnt.get(c, 0) + 1
    rhs = ''.join(sorted(c for c in cnt if cnt[c] == 1))
  if len(ins) != len(ts):
    raise RepoError('RuntimeError', 'einsum operand count')
  dev = check_dev('einsum', ts, allow_scalar=False)
  dt = _float_match('einsum/mm', ts)
  size, fac = {}, {}
  for s, t in zip(ins, ts):
    if len(s) != len(t._dims):
      raise RepoError('ShapeError', 'einsum subscripts %r for %d-d operand' % (
          s, len(t._dims)))
    for k, c in enumerate(s):
      if c in size and size[c] != ONE:
        if t._dims[k] != ONE and not dims_equal(size[c], t._dims[k]):
          tt.shape_err('einsum/mm', *[x._dims for x in ts])
      else:
        size[c] = t._dims[k]
      if k in t._fac and c not in fac:
        fac[c] = t._fac[k]
  for c in rhs:
    if c not in size:
      raise RepoError('RuntimeError', 'einsum output subscript')
  sumc = [c for c in size if c not in rhs]
  for c in sumc:
    if size[c].const() is None:
      AN().event('row_reduce', op='matmul')
  fs = [t._snap() for t in ts]

  def fn(idx):
    env = dict(zip(rhs, idx))
    vs = []
    for c in sumc:
      v, i = dim_vars(size[c], fac.get(c))
      vs += v
      env[c] = i
    body = ONE
    for s, f, t in zip(ins, fs, ts):
      body = tm.mul(body, f(tuple(ZERO if t._dims[k] == ONE else env[c]
                                  for k, c in enumerate(s))))
    return mk_sum(vs, body) if vs else body
  return new([size[c] for c in rhs], dt, dev, fn,
             fac={k: fac[c] for k, c in enumerate(rhs) if c in fac})


TORCH['einsum'] = _einsum


@reg('matmul')
def _matmul(a, b):
  if isinstance(a, SparseT):
    return _sparse_mm(a, b)
  na, nb = len(a._dims), len(b._dims)
  if na == 2 and nb == 2:
    return _einsum('ik,kj->ij', a, b)
  if na == 1 and nb == 1:
    return _einsum('k,k->', a, b)
  if na == 2 and nb == 1:
    return _einsum('ik,k->i', a, b)
  if na == 1 and nb == 2:
    return _einsum('k,kj->j', a, b)
  if na == 3 and nb == 2:
    return _einsum('bik,kj->bij', a, b)
  if na == 3 and nb == 3:
    return _einsum('bik,bkj->bij', a, b)
  raise Unsupported('matmul rank')


T.__matmul__ = _matmul
TORCH['bmm'] = lambda a, b: _einsum('bik,bkj->bij', a, b)
T.bmm = TORCH['bmm']
TORCH['mv'] = lambda a, b: _einsum('ik,k->i', a, b)
T.mv = TORCH['mv']
TORCH['dot'] = lambda a, b: _einsum('k,k->', a, b)
T.dot = TORCH['dot']
TORCH['outer'] = lambda a, b: _einsum('i,j->ij', a, b)
T.outer = TORCH['outer']


@reg('addmm')
def _addmm(self, a, b, beta=1, alpha=1):
  r = _mm(a, b)
  if alpha != 1:
    r = r * alpha
  s = self if beta == 1 else self * beta
  _float_match('addmm', [self, a])
  return s + r


_ip('addmm_', _addmm)


@reg('cross', method=False)
def _cross(a, b, dim=-1):
  raise Unsupported('cross')


# ----------------------------------------------------------- gather/scatter
@reg('index_select')
def _index_select(self, dim, index):
  d = norm_dim(dim, len(self._dims))
  if index._dt not in ('int64', 'int32'):
    raise RepoError('RuntimeError', 'index_select(): Expected dtype int32 or '
                    'int64 for index')
  check_dev('index_select', [self, index], allow_scalar=False)
  if len(index._dims) > 1:
    raise RepoError('IndexError', 'index_select(): Index must be a vector')
  return tt.adv_read(self, [(d, index, None)], False)


@reg('gather')
def _gather(self, dim, index):
  d = norm_dim(dim, len(self._dims))
  f, g = self._snap(), index._snap()
  if index._dt != 'int64':
    raise RepoError('RuntimeError', 'gather(): Expected dtype int64 for index')
  tt.note_bound(self._dims[d], index, False)
  return new(index._dims, self._dt, self._dev, lambda idx: f(
      tuple(idx[:d]) + (g(idx),) + tuple(idx[d + 1:])))


@reg('take')
def _take(self, index):
  return _flatten(self)[index]


@reg('take_along_dim')
def _tad(self, index, dim):
  return _gather(self, dim, index)


@reg('masked_select')
def _masked_select(self, mask):
  dims = broadcast_dims([self._dims, mask._dims])
  return expand(self, [dim2py(d) for d in dims])[
      expand(mask, [dim2py(d) for d in dims])]


@reg('nonzero')
def _nonzero(self, as_tuple=False):
  m = self if self._dt == 'bool' else to_dtype(self, 'bool')
  idx, l, n = tt.mask_indices(m)
  if as_tuple:
    return tuple(idx)
  return _stack(idx, 1)


TORCH['argwhere'] = _nonzero


def _scatter_add_(self, dim, index, src):
  d = norm_dim(dim, len(self._dims))
  if index._dt != 'int64':
    raise RepoError('RuntimeError', 'scatter(): Expected dtype int64 for index')
  if len(index._dims) != len(self._dims) or len(src._dims) != len(self._dims):
    raise RepoError('RuntimeError', 'scatter_add_: Index tensor must have the '
                    'same number of dimensions as self tensor')
  if src._dt != self._dt:
    raise RepoError('DtypeError', 'scatter(): Expected self.dtype to be equal '
                    'to src.dtype (%s vs %s)' % (self._dt, src._dt))
  check_dev('scatter_add_', [self, index, src], allow_scalar=False)
  n = len(self._dims)
  for k in range(n):
    if not dims_equal(index._dims[k], src._dims[k]):
      # index may be smaller than src; only equal sizes are modelled
      x, y = index._dims[k].const(), src._dims[k].const()
      if x is None or y is None or x > y:
        tt.shape_err('scatter_add_', index._dims, src._dims)
    if k != d and not dims_equal(index._dims[k], self._dims[k]):
      x, y = index._dims[k].const(), self._dims[k].const()
      if x is None or y is None or x > y:
        tt.shape_err('scatter_add_', self._dims, index._dims)
  fi, fs = index._snap(), src._snap()
  old = self._snap()
  AN().event('scatter', index=[index], accumulate=True, size=self._dims[d])
  tt.note_bound(self._dims[d], index, False)

  def fn(idx):
    vs, i = dim_vars(index._dims[d], index._fac.get(d) or src._fac.get(d))
    full = tuple(idx[:d]) + (i,) + tuple(idx[d + 1:])
    b = tm.mul(Eq(fi(full) - idx[d]), fs(full))
    return old(idx) + mk_sum(vs, b)
  self._write(lambda idx: ONE, fn)
  return self


T.scatter_add_ = _scatter_add_
T.scatter_add = lambda self, d, i, s: _scatter_add_(copy_of(self), d, i, s)
TORCH['scatter_add'] = lambda t, d, i, s: _scatter_add_(copy_of(t), d, i, s)


def _index_add_(self, dim, index, src, alpha=1):
  d = norm_dim(dim, len(self._dims))
  if src._dt != self._dt:
    raise RepoError('DtypeError', 'index_add_(): self and source dtype differ')
  check_dev('index_add_', [self, index, src], allow_scalar=False)
  fi, fs = index._snap(), src._snap()
  if len(index._dims) != 1:
    raise RepoError('RuntimeError', 'index_add_(): index must be a vector')
  if not dims_equal(index._dims[0], src._dims[d]):
    tt.shape_err('index_add_', index._dims, src._dims)
  old = self._snap()
  AN().event('scatter', index=[index], accumulate=True, size=self._dims[d])
  tt.note_bound(self._dims[d], index, False)
  al = py2poly(alpha)

  def fn(idx):
    vs, i = dim_vars(index._dims[0], index._fac.get(0) or src._fac.get(d))
    b = tm.mul(Eq(fi((i,)) - idx[d]),
               fs(tuple(idx[:d]) + (i,) + tuple(idx[d + 1:])))
    return old(idx) + tm.mul(al, mk_sum(vs, b))
  self._write(lambda idx: ONE, fn)
  return self


T.index_add_ = _index_add_
T.index_add = lambda self, d, i, s, **k: _index_add_(copy_of(self), d, i, s, **k)
TORCH['index_add'] = lambda t, d, i, s, **k: _index_add_(copy_of(t), d, i, s, **k)


def _scatter_(self, dim, index, src, reduce=None, value=None):
  d = norm_dim(dim, len(self._dims))
  if index._dt != 'int64':
    raise RepoError('RuntimeError', 'scatter(): Expected dtype int64 for index')
  fi = index._snap()
  if isinstance(src, T):
    fs = src._snap()
  else:
    p = py2poly(src)
    fs = lambda idx: p
  old = self._snap()
  if reduce not in (None, 'add'):
    raise Unsupported('scatter_ reduce')
  AN().event('scatter', index=[index], accumulate=reduce == 'add',
             size=self._dims[d])
  tt.note_bound(self._dims[d], index, False)

  def fn(idx):
    vs, i = dim_vars(index._dims[d], index._fac.get(d))
    full = tuple(idx[:d]) + (i,) + tuple(idx[d + 1:])
    hit = Eq(fi(full) - idx[d])
    s = mk_sum(vs, tm.mul(hit, fs(full)))
    if reduce == 'add':
      return old(idx) + s
    h = mk_sum(vs, hit)
    o = old(idx)
    return s + o - tm.mul(h, o)
  self._write(lambda idx: ONE, fn)
  return self


T.scatter_ = _scatter_
T.scatter = lambda self, *a, **k: _scatter_(copy_of(self), *a, **k)
TORCH['scatter'] = lambda t, *a, **k: _scatter_(copy_of(t), *a, **k)


def _index_put_(self, indices, values, accumulate=False):
  cur, adv = tt.parse_index(self, tuple(indices))
  if isinstance(values, T) and len(values._dims) == 0 or not isinstance(values, T):
    pass
  if accumulate or not all(a[2] is not None for a in adv):
    tt.index_write(cur, adv, values, accumulate)
  else:
    tt.mask_write(cur, adv, values)
  return self


T.index_put_ = _index_put_
T.index_put = lambda self, *a, **k: _index_put_(copy_of(self), *a, **k)


def _index_fill_(self, dim, index, value):
  d = norm_dim(dim, len(self._dims))
  tt.index_write(self, [(d, index, None)], value)
  return self


T.index_fill_ = _index_fill_
T.index_fill = lambda self, *a: _index_fill_(copy_of(self), *a)


def _index_copy_(self, dim, index, src):
  d = norm_dim(dim, len(self._dims))
  if d != 0:
    raise Unsupported('index_copy_ dim')
  tt.index_write(self, [(0, index, None)], src)
  return self


T.index_copy_ = _index_copy_
T.index_copy = lambda self, *a: _index_copy_(copy_of(self), *a)


def _masked_scatter_(self, mask, src):
  tt.setitem(self, mask, _flatten(src))
  return self


T.masked_scatter_ = _masked_scatter_


# -------------------------------------------------------------- searching
def vec_lam(t):
  v = fresh(t._dims[0])
  return tm.bind([v], t._at((P(v),)))


def _bucketize(inp, boundaries, out_int32=False, right=False):
  if not isinstance(inp, T):
    raise Unsupported('bucketize scalar')
  check_dev('bucketize', [inp, boundaries], allow_scalar=False)
  l = vec_lam(boundaries)
  f = inp._snap()
  if _is_sorted(l):
    n = boundaries._dims[0]
    last = l(n - 1)
    if all(l.key != x[0].key for x in tm.Ctx.searched):
      tm.Ctx.searched.append((l, last, n))
      tm.Ctx.bump()
  AN().event('search', lam=l)

  def fn(idx):
    q = f(idx)
    if right:
      return tm.shannon([q], lambda x: P(tm.atom('ub', l, x)))
    return tm.mk_lb(l, q)
  return new(inp._dims, 'int32' if out_int32 else 'int64', inp._dev, fn,
             fac=dict(inp._fac))


TORCH['bucketize'] = _bucketize


def _searchsorted(seq, values, out_int32=False, right=False, side=None, **kw):
  if side == 'right':
    right = True
  return _bucketize(values, seq, out_int32, right)


TORCH['searchsorted'] = _searchsorted


_KEYFN = re.compile(r'key\d+$')


def _is_sorted(l):
  """strictly or weakly increasing lam (sound, incomplete)"""
  return _mono(l.body, l.bvs[0])


def _mono(p, v):
  """p is monotone non decreasing in v"""
  for m, c in p.terms:
    for a, e in m:
      if not _has_bv(a, v):
        continue
      if e != 1 or c < 0 or any(_has_bv(b, v) for b, _ in m if b is not a):
        # combination 2^k*div + mod handled below
        return _mono_split(p, v)
      if a is v:
        continue
      if a.kind in ('uval', 'sel') and a.data[-1].key == P(v).key:
        continue
      if a.kind == 'app' and _KEYFN.search(a.data[0]) and len(a.data) == 2 and \
          (a.data[1].key == P(v).key or _mono(a.data[1], v)):
        continue
      if a.kind in ('div',) and _mono(a.data[0], v):
        continue
      if a.kind == 'slc' and a.data[2] is None and _mono(a.data[0], v):
        continue
      if a.kind == 'uval' and _mono(a.data[1], v):
        continue
      return _mono_split(p, v)
  return True


def _mono_split(p, v):
  # sum of adjacent digit groups of x with growing weights: a spread of x
  ts = [(m, c) for m, c in p.terms if any(_has_bv(a, v) for a, e in m)]
  parts, src = [], None
  for m, c in ts:
    if len(m) != 1 or m[0][0].kind != 'slc' or m[0][1] != 1 or c <= 0:
      return False
    x, s, n = m[0][0].data
    if src is not None and x.key != src.key:
      return False
    src = x
    parts.append((s, n, c))
  parts.sort(key=lambda t: -t[0])
  if len(parts) < 2 or parts[0][1] is not None:
    return False
  for (s, _, c), (s2, n2, c2) in zip(parts, parts[1:]):
    if n2 is None or s2 + n2 != s or c < c2 * 2 ** n2:
      return False
  return _mono(src, v)


def _has_bv(a, v):
  return tm.contains(a, v)


def _unique(self, sorted=True, return_inverse=False, return_counts=False,
            dim=None):
  return _uniq(self, 'u', return_inverse, return_counts, dim)


def _unique_consecutive(self, return_inverse=False, return_counts=False,
                        dim=None):
  t = self if len(self._dims) == 1 else _flatten(self)
  l = vec_lam(t)
  kind = 'u' if _is_sorted(l) else 'c'
  return _uniq(self, kind, return_inverse, return_counts, dim)


def _uniq(self, k, inv, cnt, dim):
  if dim not in (None, 0) or len(self._dims) != 1:
    t = _flatten(self)
  else:
    t = self
  l = vec_lam(t)
  if k == 'u':
    num, valf, posf = tm.distinct(l)
  else:
    num = P(tm.atom('cnum', l))
    valf = lambda i: tm.shannon([i], lambda x: P(tm.atom('cval', l, x, isint=l.body.isint)))
    posf = lambda i: tm.shannon([i], lambda x: P(tm.atom('cinv', l, x)))

  def val(idx):
    return valf(idx[0])

  def invf(idx):
    return posf(idx[0])

  def cntf(idx):
    v = fresh(t._dims[0])
    return mk_sum([v], Eq(invf((P(v),)) - idx[0]))
  u = new([num], t._dt, t._dev, val)
  out = [u]
  if inv:
    r = new(t._dims, 'int64', t._dev, invf)
    if len(self._dims) != 1:
      r = reshape(r, list(self.shape))
    out.append(r)
  if cnt:
    out.append(new([num], 'int64', t._dev, cntf))
  AN().event('row_reduce', op='unique')
  return tuple(out) if len(out) > 1 else out[0]


TORCH['unique'] = _unique
T.unique = _unique
TORCH['unique_consecutive'] = _unique_consecutive
T.unique_consecutive = _unique_consecutive


def _sort(self, dim=-1, descending=False, stable=False):
  if len(self._dims) != 1 or descending:
    raise Unsupported('sort')
  l = vec_lam(self)
  AN().event('row_reduce', op='sort')
  if _is_sorted(l):
    return ValInd((copy_of(self), _arange(dim2py(self._dims[0]), device=self._dev)))
  v = new(self._dims, self._dt, self._dev,
          lambda i: P(tm.atom('sorted', l, i[0], isint=l.body.isint)))
  o = new(self._dims, 'int64', self._dev,
          lambda i: P(tm.atom('argsort', l, i[0])))
  return ValInd((v, o))


TORCH['sort'] = _sort
T.sort = _sort
TORCH['argsort'] = lambda t, *a, **k: _sort(t, *a, **k)[1]
T.argsort = TORCH['argsort']


def _bincount(self, weights=None, minlength=0):
  raise Unsupported('bincount')


TORCH['bincount'] = _bincount
T.bincount = _bincount


# ------------------------------------------------------------------ sparse
class SparseT:
  def __init__(self, idx, val, size, dev):
    self.idx, self.val, self.size_, self._dev = idx, val, size, dev

  def coalesce(self):
    return self

  def t(self):
    return SparseT([self.idx[1], self.idx[0]], self.val, self.size_[::-1],
                   self._dev)

  def __matmul__(self, o):
    return _sparse_mm(self, o)

  @property
  def dtype(self):
    return DT[self.val._dt]

  @property
  def device(self):
    return self._dev

  @property
  def shape(self):
    return Size(dim2py(d) for d in self.size_)

  def to(self, *a, **k):
    return SparseT(self.idx, _to(self.val, *a, **k), self.size_, self._dev)

  def to_dense(self):
    r, c, v = self.idx[0]._snap(), self.idx[1]._snap(), self.val._snap()

    def fn(i):
      vs, e = dim_vars(self.val._dims[0], self.val._fac.get(0))
      return mk_sum(vs, tm.mulall([Eq(r((e,)) - i[0]), Eq(c((e,)) - i[1]),
                                   v((e,))]))
    return new(self.size_, self.val._dt, self._dev, fn)


def _sparse_coo(indices, values, size=None, dtype=None, device=None, **kw):
  if size is None:
    raise Unsupported('sparse tensor without size')
  if indices._dims[0].const() != 2:
    raise Unsupported('sparse rank')
  if not dims_equal(indices._dims[1], values._dims[0]):
    tt.shape_err('sparse_coo_tensor', indices._dims, values._dims)
  dev = dev_of(device) if device is not None else values._dev
  ix = to_device(indices, dev)
  v = to_device(values, dev)
  if dtype is not None:
    v = to_dtype(v, dtn(dtype))
  a, b = select(ix, 0, 0), select(ix, 0, 1)
  for t in (a, b):
    t._fac = dict(indices._fac and {0: indices._fac[1]} if 1 in indices._fac else {})
  ps = [py2poly(s) for s in size]
  tt.note_bound(ps[0], a, False)
  tt.note_bound(ps[1], b, False)
  return SparseT([a, b], v, tuple(ps), dev)


TORCH['sparse_coo_tensor'] = _sparse_coo


def _sparse_mm(mat, dense):
  if not isinstance(mat, SparseT):
    return _mm(mat, dense)
  if not dims_equal(mat.size_[1], dense._dims[0]):
    tt.shape_err('sparse.mm', mat.size_, dense._dims)
  if mat._dev != dense._dev:
    raise RepoError('DeviceError', 'sparse.mm mixes %s and %s' % (
        mat._dev, dense._dev))
  if mat.val._dt != dense._dt:
    raise RepoError('DtypeError', 'sparse.mm: expected the same dtype, got %s '
                    'and %s' % (mat.val._dt, dense._dt))
  r, c, v = mat.idx[0]._snap(), mat.idx[1]._snap(), mat.val._snap()
  f = dense._snap()
  n = len(dense._dims)

  def fn(i):
    vs, e = dim_vars(mat.val._dims[0], mat.val._fac.get(0))
    tail = tuple(i[1:])
    return mk_sum(vs, tm.mulall([Eq(r((e,)) - i[0]), v((e,)),
                                 f((c((e,)),) + tail)]))
  return new((mat.size_[0],) + dense._dims[1:], dense._dt, dense._dev, fn)


SPARSE = {'mm': _sparse_mm}


# -------------------------------------------------------------- functional
def _normalize(x, p=2.0, dim=1, eps=1e-12, **kw):
  if p not in (2, 2.0):
    raise Unsupported('normalize p')
  n = TORCH['sqrt'](do_sum(x * x, dim, True))
  return x / _clamp(n, min=eps)


FUNC['normalize'] = _normalize
FUNC['relu'] = lambda x, inplace=False: (TORCH['relu_'] if inplace else
                                         TORCH['relu'])(x)
FUNC['one_hot'] = lambda t, num_classes=-1: _one_hot(t, num_classes)


def _one_hot(t, n):
  if n == -1:
    raise Unsupported('one_hot')
  f = t._snap()
  return new(t._dims + (P(n),), 'int64', t._dev,
             lambda i: Eq(f(tuple(i[:-1])) - i[-1]))


def opaque(name, t, dims=None, dt=None, args=()):
  """Uninterpreted pointwise-in-rows operation."""
  f = t._snap()
  tm.declare(name, 'f')
  return new(dims if dims is not None else t._dims, dt or t._dt, t._dev,
             lambda idx: tm.App(name, f(idx), *args))


def _linear(x, w, b=None):
  if not dims_equal(x._dims[-1], w._dims[1]):
    tt.shape_err('linear', x._dims, w._dims)
  check_dev('linear', [x, w] + ([b] if b is not None else []), False)
  _float_match('linear', [x, w])
  from .driver import Mode
  if Mode.havoc:
    Mode.havoc += 1
    name = 'net%d' % Mode.havoc
    tm.declare(name, 'f')
    return new(x._dims[:-1] + (w._dims[0],), x._dt, x._dev, lambda idx: tm.App(name, *idx))
  f, g = x._snap(), w._snap()
  h = b._snap() if b is not None else None

  def fn(idx):
    vs, i = dim_vars(w._dims[1], x._fac.get(len(x._dims) - 1))
    s = mk_sum(vs, tm.mul(f(tuple(idx[:-1]) + (i,)), g((idx[-1], i))))
    return s + h((idx[-1],)) if h is not None else s
  return new(x._dims[:-1] + (w._dims[0],), x._dt, x._dev, fn)


FUNC['linear'] = _linear
FUNC['dropout'] = lambda x, p=0.5, training=True, inplace=False: (
    opaque('dropout', x) if training else x)


def _loss(name):
  def f(a, b=None, *r, **kw):
    if isinstance(a, T) and isinstance(b, T):
      check_dev(name, [a, b], False)
      if not dims_equal(a._dims[0], b._dims[0]):
        tt.shape_err(name, a._dims, b._dims)
    tm.declare(name, 'f')
    return new([], a._dt, a._dev, lambda i: tm.App(name))
  return f


for _n in ('cross_entropy', 'binary_cross_entropy_with_logits', 'mse_loss',
           'nll_loss', 'l1_loss', 'smooth_l1_loss'):
  FUNC[_n] = _loss(_n)


def _softmax(self, dim=None, **kw):
  d = norm_dim(dim, len(self._dims))
  if self._dims[d].const() is None:
    AN().event('row_reduce', op='softmax')
  e = TORCH['exp'](self)
  return e / do_sum(e, d, True)


FUNC['softmax'] = TORCH['softmax'] = T.softmax = _softmax


def _log_softmax(self, dim=None, **kw):
  return TORCH['log'](_softmax(self, dim))


FUNC['log_softmax'] = TORCH['log_softmax'] = T.log_softmax = _log_softmax


def _pad(x, pad, mode='constant', value=0):
  raise Unsupported('F.pad')


FUNC['pad'] = _pad


def _allclose(a, b, *r, **k):
  return mk_scalar(py2poly(_all(TORCH['eq'](a, b))), isbool=True)


TORCH['allclose'] = _allclose
TORCH['equal'] = _allclose
T.equal = _allclose
T.allclose = _allclose

# ----------------------------------------------------------------- init
def _init_fill(v):
  def f(t, *a, **kw):
    val = v if v is not None else (a[0] if a else 0)
    tt.assign(t, val)
    return t
  return f


def _init_rand(lo=None, hi=None):
  def f(t, *a, **kw):
    l, h = lo, hi
    tt.assign(t, rand_tensor(t._dims, t._dt, t._dev, None, None))
    return t
  return f


INIT = {
    'zeros_': _init_fill(0), 'ones_': _init_fill(1), 'constant_': _init_fill(None),
    'uniform_': _init_rand(), 'normal_': _init_rand(),
    'xavier_uniform_': _init_rand(), 'xavier_normal_': _init_rand(),
    'kaiming_uniform_': _init_rand(), 'kaiming_normal_': _init_rand(),
    'trunc_normal_': _init_rand(),
}
