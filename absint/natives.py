"""Models of the external libraries the repository imports."""
import math
from fractions import Fraction
from . import tensor as tn
from . import terms as tm
from . import torchlib as tl
from . import interp as ip
from .interp import NS, TypeTag, Stub, IInstance, IClass, IFunction, BoundMethod
from .tensor import (T, S, Size, RepoError, Unsupported, DT, Device, dev_of,
                     mk_scalar, py2poly, new)
from .terms import P

PRELUDE = '''
class Module:
  def __init__(self, *args, **kwargs):
    self.training = True
  def __call__(self, *args, **kwargs):
    return self.forward(*args, **kwargs)
  def parameters(self, recurse=True):
    return [v for _, v in _native.named_params(self)]
  def named_parameters(self, prefix='', recurse=True):
    return _native.named_params(self)
  def modules(self):
    return [m for _, m in _native.named_modules(self)]
  def named_modules(self):
    return _native.named_modules(self)
  def children(self):
    return [m for _, m in _native.children(self)]
  def named_children(self):
    return _native.children(self)
  def train(self, mode=True):
    for m in self.modules():
      m.training = mode
    return self
  def eval(self):
    return self.train(False)
  def apply(self, fn):
    for _, m in _native.children(self):
      m.apply(fn)
    fn(self)
    return self
  def register_buffer(self, name, tensor, persistent=True):
    setattr(self, name, tensor)
  def register_parameter(self, name, param):
    setattr(self, name, param)
  def add_module(self, name, module):
    setattr(self, name, module)
  def register_module(self, name, module):
    setattr(self, name, module)
  def requires_grad_(self, requires_grad=True):
    for p in self.parameters():
      p.requires_grad_(requires_grad)
    return self
  def zero_grad(self, set_to_none=True):
    pass
  def to(self, *args, **kwargs):
    _native.module_to(self, *args, **kwargs)
    return self
  def cuda(self, device=None):
    return self.to('cuda' if device is None else device)
  def cpu(self):
    return self.to('cpu')
  def float(self):
    return self
  def extra_repr(self):
    return ''
  def state_dict(self):
    return dict(_native.named_params(self))

class Sequential(Module):
  def __init__(self, *args):
    super().__init__()
    if len(args) == 1 and isinstance(args[0], dict):
      args = list(args[0].values())
    self._list = list(args)
  def forward(self, x):
    for m in self._list:
      x = m(x)
    return x
  def __len__(self):
    return len(self._list)
  def __iter__(self):
    return iter(self._list)
  def __getitem__(self, i):
    if isinstance(i, slice):
      return Sequential(*self._list[i])
    return self._list[i]
  def append(self, m):
    self._list.append(m)
    return self

class ModuleList(Module):
  def __init__(self, modules=None):
    super().__init__()
    self._list = list(modules) if modules is not None else []
  def __len__(self):
    return len(self._list)
  def __iter__(self):
    return iter(self._list)
  def __getitem__(self, i):
    if isinstance(i, slice):
      return ModuleList(self._list[i])
    return self._list[i]
  def __setitem__(self, i, m):
    self._list[i] = m
  def append(self, m):
    self._list.append(m)
    return self
  def extend(self, ms):
    self._list.extend(ms)
    return self
  def insert(self, i, m):
    self._list.insert(i, m)

class ModuleDict(Module):
  def __init__(self, modules=None):
    super().__init__()
    self._dict = dict(modules) if modules is not None else {}
  def __getitem__(self, k):
    return self._dict[k]
  def __setitem__(self, k, v):
    self._dict[k] = v
  def __contains__(self, k):
    return k in self._dict
  def __len__(self):
    return len(self._dict)
  def __iter__(self):
    return iter(self._dict)
  def keys(self):
    return self._dict.keys()
  def values(self):
    return self._dict.values()
  def items(self):
    return self._dict.items()

class Linear(Module):
  def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
    super().__init__()
    self.in_features = in_features
    self.out_features = out_features
    self.weight = _native.param((out_features, in_features))
    self.bias = _native.param((out_features,)) if bias else None
  def forward(self, input):
    return _native.linear(input, self.weight, self.bias)

class Identity(Module):
  def __init__(self, *args, **kwargs):
    super().__init__()
  def forward(self, input):
    return input

class ReLU(Module):
  def __init__(self, inplace=False):
    super().__init__()
    self.inplace = inplace
  def forward(self, input):
    return _native.relu(input, self.inplace)

class _Act(Module):
  def __init__(self, *args, **kwargs):
    super().__init__()
  def forward(self, input):
    return _native.pointwise(type(self).__name__, input)

class Sigmoid(_Act): pass
class Tanh(_Act): pass
class GELU(_Act): pass
class SiLU(_Act): pass
class ELU(_Act): pass
class LeakyReLU(_Act): pass
class Softplus(_Act): pass

class Dropout(Module):
  def __init__(self, p=0.5, inplace=False):
    super().__init__()
    self.p = p
    self.inplace = inplace
  def forward(self, input):
    return _native.dropout(input, self.p, self.training)

class BatchNorm1d(Module):
  def __init__(self, num_features, eps=1e-05, momentum=0.1, affine=True,
               track_running_stats=True, device=None, dtype=None):
    super().__init__()
    self.num_features = num_features
    self.eps = eps
    self.momentum = momentum
    self.affine = affine
    self.weight = _native.param((num_features,)) if affine else None
    self.bias = _native.param((num_features,)) if affine else None
    self.running_mean = _native.buffer((num_features,), False)
    self.running_var = _native.buffer((num_features,), True)
  def forward(self, input):
    return _native.batch_norm(self, input)

class LayerNorm(Module):
  def __init__(self, normalized_shape, eps=1e-05, elementwise_affine=True, bias=True):
    super().__init__()
    if not isinstance(normalized_shape, (tuple, list)):
      normalized_shape = (normalized_shape,)
    self.normalized_shape = tuple(normalized_shape)
    self.weight = _native.param(self.normalized_shape)
    self.bias = _native.param(self.normalized_shape)
  def forward(self, input):
    return _native.layer_norm(self, input)

class Conv2d(Module):
  def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, *args, **kwargs):
    super().__init__()
    self.weight = _native.param((out_channels, in_channels, kernel_size, kernel_size))

class Flatten(Module):
  def __init__(self, start_dim=1, end_dim=-1):
    super().__init__()
    self.start_dim = start_dim
    self.end_dim = end_dim
  def forward(self, input):
    return input.flatten(self.start_dim, self.end_dim)

class ResNet18(Module):
  def __init__(self, *args, **kwargs):
    super().__init__()
    self.conv1 = Conv2d(3, 64, 7)
    self.fc = Linear(512, 1000)
  def forward(self, input):
    return self.fc(_native.image_features(input))

class Embedding(Module):
  def __init__(self, num_embeddings, embedding_dim, *args, **kwargs):
    super().__init__()
    self.weight = _native.param((num_embeddings, embedding_dim))
  def forward(self, input):
    return self.weight[input]

class _Loss(Module):
  def __init__(self, *args, **kwargs):
    super().__init__()
  def forward(self, a, b):
    return _native.loss(a, b)
class CrossEntropyLoss(_Loss): pass
class BCEWithLogitsLoss(_Loss): pass
class MSELoss(_Loss): pass
class L1Loss(_Loss): pass
class NLLLoss(_Loss): pass

class Function:
  pass

class Dataset:
  def __init__(self, *args, **kwargs):
    pass
'''


class NoGrad:
  def __init__(self, *a, **k):
    pass

  def abs_enter(self):
    return self

  def abs_exit(self):
    pass

  def __call__(self, f=None, *a, **k):
    return f if f is not None else self


class Lazy:
  """Values that must not be looked into."""


def _param_tensor(dims, name='param', like=None):
  tm_name = '%s#%d' % (name, next(_pc))
  tm.declare(tm_name, 'f')
  t = new([P(d) if not isinstance(d, (S, T)) else py2poly(d) for d in dims],
          'float32', Device('cpu'), lambda idx: tm.App(tm_name, *idx))
  return t


from itertools import count as _count
_pc = _count()


def _param(dims):
  t = _param_tensor(dims)
  t._isparam = True
  t.requires_grad = True
  return t


def Parameter(data=None, requires_grad=True):
  t = T(data._dims, data._dt, data._dev, storage=data._st, view=data._view,
        fac=data._fac)
  t._isparam = True
  t.requires_grad = requires_grad
  return t


def _children(m):
  out = []
  for k, v in m.d.items():
    if isinstance(v, IInstance) and v.cls.subname('Module'):
      out.append((k, v))
    elif k == '_list':
      out.extend((str(i), x) for i, x in enumerate(v)
                 if isinstance(x, IInstance) and x.cls.subname('Module'))
    elif k == '_dict':
      out.extend((kk, x) for kk, x in v.items()
                 if isinstance(x, IInstance) and x.cls.subname('Module'))
  return out


def _named_modules(m, prefix='', seen=None):
  seen = set() if seen is None else seen
  if id(m) in seen:
    return []
  seen.add(id(m))
  out = [(prefix, m)]
  for k, c in _children(m):
    out.extend(_named_modules(c, prefix + ('.' if prefix else '') + k, seen))
  return out


def _named_params(m):
  out, seen = [], set()
  for n, mm in _named_modules(m):
    for k, v in mm.d.items():
      if isinstance(v, T) and v._isparam and id(v) not in seen:
        seen.add(id(v))
        out.append(((n + '.' if n else '') + k, v))
  return out


def _module_to(m, *args, **kw):
  dev = None
  for a in list(args) + list(kw.values()):
    if isinstance(a, (str, Device)):
      dev = dev_of(a)
  for n, mm in _named_modules(m):
    for k, v in mm.d.items():
      if isinstance(v, T) and (v._isparam or k in ('running_mean', 'running_var')):
        if dev is not None:
          v._dev = dev


def _batch_norm(self, x):
  if len(x._dims) not in (2, 3):
    raise RepoError('ValueError', 'expected 2D or 3D input (got %dD input)' % len(x._dims))
  if not tn.dims_equal(x._dims[1], P(self.d['num_features'])):
    raise RepoError('RuntimeError', 'batch_norm: expected %s channels, got %s' %
                    (self.d['num_features'], x._dims[1]))
  tn.check_dev('batch_norm', [x, self.d['running_mean']], False)
  training = self.d['training'] is True
  if training:
    tn.AN.event('row_reduce', op='batch_norm')
  return tl.opaque('op_bn', x)


def _layer_norm(self, x):
  n = len(self.d['normalized_shape'])
  for d, s in zip(x._dims[-n:], self.d['normalized_shape']):
    if not tn.dims_equal(d, P(s)):
      raise RepoError('RuntimeError', 'layer_norm shape')
  return tl.opaque('op_ln', x)


def _pointwise(name, x):
  f = {'Sigmoid': 'sigmoid', 'Tanh': 'tanh'}.get(name)
  if f in tl.TORCH:
    return tl.TORCH[f](x)
  return tl.opaque('act_' + name, x)


def _image_features(x):
  if len(x._dims) != 4 or not tn.dims_equal(x._dims[1], P(3)):
    raise RepoError('RuntimeError', 'expected an N x 3 x H x W image')
  tm.declare('image', 'f')
  return tn.new([x._dims[0], P(512)], x._dt, x._dev, lambda idx: tm.App('image', *idx))


NATIVE = {
    'image_features': lambda x: _image_features(x),
    'param': _param,
    'buffer': lambda dims, one: tl.filled([P(d) for d in dims], 1 if one else 0,
                                          'float32', Device('cpu')),
    'linear': tl.FUNC['linear'], 'relu': tl.FUNC['relu'],
    'dropout': lambda x, p, tr: tl.FUNC['dropout'](x, p, bool(tr)),
    'batch_norm': _batch_norm, 'layer_norm': _layer_norm,
    'named_params': _named_params, 'named_modules': _named_modules,
    'children': _children, 'module_to': _module_to, 'pointwise': _pointwise,
    'loss': lambda a, b: tl.FUNC['cross_entropy'](a, b),
}

TORCH_MORE = {}


def prelude(it):
  if '%prelude' not in it.modules:
    m = ip.IModule('%prelude', '<torch.nn>')
    m.pkg = ''
    it.modules['%prelude'] = m
    m.d['_native'] = NS('_native', NATIVE)
    import ast
    if 'prelude' not in ip.AST_CACHE:
      ip.AST_CACHE['prelude'] = ast.parse(PRELUDE)
    it.run_module(m, ip.AST_CACHE['prelude'])
  return it.modules['%prelude']


NPDT = {'float32': 'float32', 'float64': 'float64', 'float16': 'float16',
        'int32': 'int32', 'int64': 'int64', 'uint8': 'uint8', 'int16': 'int16',
        'int8': 'int8', 'bool_': 'bool'}


def _torch(it):
  d = {k: v for k, v in tl.TORCH.items() if v is not None}
  for n, dt in DT.items():
    d[n] = dt
  d['long'], d['int'], d['float'] = DT['int64'], DT['int32'], DT['float32']
  d['double'], d['half'], d['short'] = DT['float64'], DT['float16'], DT['int16']
  d['__version__'] = '2.15.0'
  tensor_tag = TypeTag('Tensor', lambda x: isinstance(x, T) and not x._isnp, tl._Tensor)
  it.builtins['%Tensor'] = tensor_tag
  d['Tensor'] = tensor_tag
  for n, dt in (('LongTensor', 'int64'), ('IntTensor', 'int32'),
                ('ShortTensor', 'int16'), ('ByteTensor', 'uint8')):
    d[n] = TypeTag(n, lambda x, dt=dt: isinstance(x, T) and x._dt == dt, tl._int_tensor(dt))
  d['FloatTensor'] = TypeTag('FloatTensor', lambda x: isinstance(x, T) and x._dt == 'float32', tl._Tensor)
  d['device'] = TypeTag('device', lambda x: isinstance(x, Device), dev_of)
  d['dtype'] = TypeTag('dtype', lambda x: isinstance(x, tn.DType))
  d['Size'] = Size
  d['no_grad'] = NoGrad
  d['inference_mode'] = NoGrad
  d['enable_grad'] = NoGrad
  d['set_grad_enabled'] = NoGrad
  d['_assert'] = lambda c, m='': it.check(c, str(m))
  d['manual_seed'] = lambda s: None
  d['is_grad_enabled'] = lambda: True
  d['inf'], d['nan'], d['pi'] = math.inf, math.nan, math.pi
  d['strided'] = Stub('torch.strided')
  d['cuda'] = NS('torch.cuda', {
      'is_available': lambda: False, 'empty_cache': lambda: None,
      'synchronize': lambda *a: None,
      'amp': NS('torch.cuda.amp', {
          'autocast': NoGrad,
          'custom_fwd': lambda f=None, **k: f if f is not None else (lambda g: g),
          'custom_bwd': lambda f=None, **k: f if f is not None else (lambda g: g)})})
  d['jit'] = NS('torch.jit', {'script': lambda f: f, 'ignore': lambda f: f,
                              'export': lambda f: f})
  d['autocast'] = NoGrad
  d['sparse'] = NS('torch.sparse', dict(tl.SPARSE))
  d['multiprocessing'] = Stub('torch.multiprocessing')
  d['load'] = Stub('torch.load')
  d['save'] = Stub('torch.save')
  ns = NS('torch', d)
  p = prelude(it)
  nn = {k: v for k, v in p.d.items() if isinstance(v, IClass)}
  nn['Parameter'] = TypeTag('Parameter', lambda x: isinstance(x, T) and x._isparam, Parameter)
  nn['functional'] = NS('torch.nn.functional', {**d, **tl.FUNC})
  nn['init'] = NS('torch.nn.init', dict(tl.INIT))
  nn['utils'] = Stub('torch.nn.utils')
  nn['parameter'] = NS('torch.nn.parameter', {'Parameter': nn['Parameter']})
  d['nn'] = NS('torch.nn', nn)
  nn['modules'] = d['nn']
  d['autograd'] = NS('torch.autograd', {
      'Function': p.d['Function'],
      'function': NS('torch.autograd.function', {'once_differentiable': lambda f: f,
                                                 'Function': p.d['Function']}),
      'no_grad': NoGrad})
  d['utils'] = NS('torch.utils', {
      'checkpoint': NS('torch.utils.checkpoint', {'checkpoint': _checkpoint(it)}),
      'data': NS('torch.utils.data', {'Dataset': p.d['Dataset'],
                                      'DataLoader': Stub('DataLoader'),
                                      'Sampler': p.d['Dataset']}),
      'tensorboard': Stub('tensorboard')})
  d['optim'] = Stub('torch.optim')
  d['distributed'] = Stub('torch.distributed')
  d['linalg'] = NS('torch.linalg', {'norm': d.get('norm')})
  return ns


def _checkpoint(it):
  def checkpoint(fn, *args, use_reentrant=None, preserve_rng_state=True, **kw):
    return it.call(fn, args, kw)
  return checkpoint


def _sub(name):
  def f(it):
    o = it.import_module(name.split('.')[0])
    for part in name.split('.')[1:]:
      o = o.d[part]
    return o
  return f


def _math(it):
  d = {}

  def un(name, fn):
    def f(x, *r):
      if isinstance(x, (S, T)):
        return mk_scalar(fn(py2poly(x)))
      if any(isinstance(y, S) for y in r):
        raise Unsupported('math.%s of a symbolic value' % name)
      return getattr(math, name)(x, *r)
    f.__module__ = 'math'
    return f
  d.update(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan)
  d['floor'] = un('floor', lambda p: tm.Floor(p))
  d['ceil'] = un('ceil', lambda p: -tm.Floor(-p))
  d['sqrt'] = un('sqrt', lambda p: tm.Fun('sqrt', p))
  d['exp'] = un('exp', lambda p: tm.Fun('exp', p))
  d['log2'] = un('log2', lambda p: tm.Fun('log2', p))
  d['fabs'] = un('fabs', lambda p: tm.Fun('abs', p))
  for n in ('sin', 'cos', 'tan', 'atan2', 'log', 'pow', 'prod', 'isnan', 'isinf',
            'gcd', 'radians', 'degrees', 'tanh', 'comb', 'factorial', 'log10',
            'hypot', 'isclose', 'trunc', 'copysign'):
    if hasattr(math, n):
      d[n] = un(n, lambda p, n=n: _nope(n))
  return NS('math', d)


def _nope(n):
  raise Unsupported('math.%s of a symbolic value' % n)


def _typing(it):
  d = {n: TypeTag(n, lambda x: True) for n in (
      'List', 'Union', 'Optional', 'Dict', 'Tuple', 'Any', 'Callable', 'Sequence',
      'Iterable', 'Type', 'Literal', 'NamedTuple', 'Set', 'Iterator', 'Generator')}
  d['TYPE_CHECKING'] = False
  return NS('typing', d)


def _copy(it):
  def deepcopy(x, memo=None):
    if isinstance(x, T):
      return tl.T.clone(x)
    if isinstance(x, list):
      return [deepcopy(v) for v in x]
    if isinstance(x, tuple):
      return tuple(deepcopy(v) for v in x)
    if isinstance(x, dict):
      return {k: deepcopy(v) for k, v in x.items()}
    if isinstance(x, IInstance):
      o = IInstance(x.cls)
      o.d.update({k: deepcopy(v) for k, v in x.d.items() if k != '__origin__'})
      return o
    return x

  def copy(x):
    if isinstance(x, IInstance):
      o = IInstance(x.cls)
      o.d.update({k: v for k, v in x.d.items() if k != '__origin__'})
      return o
    if isinstance(x, (list, dict, set)):
      return x.copy()
    return x
  return NS('copy', {'copy': copy, 'deepcopy': deepcopy})


def _version(it):
  def parse(s):
    return tuple(int(x) if x.isdigit() else 0 for x in str(s).split('+')[0].split('.'))
  return NS('packaging.version', {'parse': parse, 'Version': parse})


def _os(it):
  import os.path as osp
  d = {'path': NS('os.path', {'join': osp.join, 'dirname': osp.dirname,
                              'basename': osp.basename, 'splitext': osp.splitext,
                              'realpath': lambda p: p, 'abspath': lambda p: p,
                              'exists': Stub('os.path.exists'),
                              'isdir': Stub('os.path.isdir')}),
       'environ': {}}
  for n in ('listdir', 'makedirs', 'remove', 'system', 'rename'):
    d[n] = Stub('os.' + n)
  d['getcwd'] = lambda: '/'
  return NS('os', d)


def _functools(it):
  def partial(f, *a, **k):
    return lambda *b, **q: it.call(f, a + b, {**k, **q})

  def reduce(f, xs, *init):
    xs = list(xs)
    r = init[0] if init else xs.pop(0)
    for x in xs:
      r = it.call(f, (r, x), {})
    return r
  return NS('functools', {'partial': partial, 'reduce': reduce,
                          'wraps': lambda g: (lambda f: f),
                          'lru_cache': lambda *a, **k: (a[0] if a and not isinstance(a[0], int) and a[0] is not None else (lambda f: f))})


def _itertools(it):
  import itertools
  return NS('itertools', {n: getattr(itertools, n) for n in (
      'product', 'chain', 'accumulate', 'repeat', 'islice', 'zip_longest', 'combinations', 'permutations', 'count')})


def _operator(it):
  import operator
  return NS('operator', {n: getattr(operator, n) for n in dir(operator)
                         if not n.startswith('_')})


def _collections(it):
  import collections
  return NS('collections', {n: getattr(collections, n) for n in
                            ('OrderedDict', 'defaultdict', 'deque', 'Counter', 'namedtuple')})


def _random(it):
  def rnd(*a):
    tn.AN.event('random')
    n = 'rnd#%d' % next(_pc)
    tm.declare(n, 'f', 0, 1)
    return S(tm.App(n))
  return NS('random', {'random': rnd, 'seed': lambda *a: None})


def _dataclasses(it):
  raise Unsupported('dataclasses')


def _simple(name, d):
  return lambda it: NS(name, d)


def table():
  t = {'torch': _torch, 'math': _math, 'typing': _typing, 'copy': _copy,
       'os': _os, 'functools': _functools, 'itertools': _itertools,
       'operator': _operator, 'collections': _collections, 'random': _random,
       'packaging': lambda it: NS('packaging', {'version': _version(it)}),
       'packaging.version': _version,
       'warnings': _simple('warnings', {'warn': lambda *a, **k: None,
                                        'filterwarnings': lambda *a, **k: None}),
       'sys': _simple('sys', {'path': [], 'argv': [], 'maxsize': 2**63 - 1}),
       'time': _simple('time', {'time': lambda: 0.0}),
       'logging': _simple('logging', {'getLogger': lambda *a: Stub('logger')}),
       'abc': _simple('abc', {'ABC': Stub('ABC'), 'abstractmethod': lambda f: f}),
       }
  for n in ('torch.nn', 'torch.nn.functional', 'torch.nn.init', 'torch.autograd',
            'torch.autograd.function', 'torch.utils', 'torch.utils.checkpoint',
            'torch.utils.data', 'torch.sparse', 'torch.cuda', 'torch.cuda.amp',
            'torch.jit', 'torch.nn.parameter', 'torch.linalg', 'torch.nn.modules',
            'os.path', 'torch.optim', 'torch.distributed', 'torch.multiprocessing'):
    t[n] = _sub(n)
  rn = lambda it: NS('torchvision.models', {'resnet18': prelude(it).d['ResNet18']})
  t['torchvision.models'] = rn
  t['torchvision'] = lambda it: NS('torchvision', {'models': rn(it)})
  from . import numpylib
  t['numpy'] = numpylib.module
  for n in ('numpy.random', 'numpy.linalg'):
    t[n] = _sub(n)
  return t


def make_interp():
  it = ip.Interp(table())
  ip.set_interp(it)
  return it


# names of real tensor methods: an unmodelled one is 'no verdict', an unknown
# one is a definite AttributeError of the analysed program
ip.TENSOR_NAMES |= set('''
abs absolute acos add addbmm addcdiv addcmul addmm addmv addr all allclose amax
amin aminmax angle any apply_ arange arctan argmax argmin argsort asin
as_strided atan atan2 backward baddbmm bernoulli bernoulli_ bfloat16 bincount
bitwise_and bitwise_left_shift bitwise_not bitwise_or bitwise_right_shift
bitwise_xor bmm bool broadcast_to byte cauchy_ ceil char cholesky chunk clamp
clamp_max clamp_min clip clone conj contiguous copy_ cos cosh count_nonzero cpu
cross cuda cummax cummin cumprod cumsum cumulative_trapezoid data data_ptr
deg2rad dense_dim det detach detach_ device diag diagonal diff digamma dim dist
div divide dot double dsplit dtype element_size eq equal erf erfc erfinv exp
exp2 exp_ expand expand_as expm1 exponential_ fill_ fill_diagonal_ fix flatten
flip fliplr flipud float float_power floor floor_divide fmax fmin fmod frac
gather gcd ge geometric_ ger get_device grad grad_fn greater half hardshrink
heaviside histc hsplit hypot imag index_add index_add_ index_copy index_copy_
index_fill index_fill_ index_put index_put_ index_reduce index_reduce_
index_select indices inner int inverse isclose isfinite isinf isnan is_complex
is_contiguous is_cuda is_floating_point is_leaf is_pinned is_shared is_signed
is_sparse item itemsize kthvalue lcm ldexp le lerp less lgamma log log10 log1p
log2 log_softmax logaddexp logcumsumexp logical_and logical_not logical_or
logical_xor logit logsumexp long lt lu map_ masked_fill masked_fill_
masked_scatter masked_scatter_ masked_select matmul matrix_power max maximum
mean median min minimum mm mode moveaxis movedim msort mul multinomial multiply
mv mvlgamma mT names nan_to_num nanmean nansum narrow narrow_copy nbytes ndim
ndimension ne neg negative nelement new new_empty new_full new_ones new_tensor
new_zeros nonzero norm normal_ not_equal numel numpy orgqr outer permute
pin_memory pow prelu prod put_ qr quantile rad2deg random_ ravel reciprocal
record_stream register_hook remainder renorm repeat repeat_interleave
requires_grad requires_grad_ reshape reshape_as resize_ resolve_conj retain_grad
roll rot90 round rsqrt scatter scatter_ scatter_add scatter_add_ scatter_reduce
scatter_reduce_ select select_scatter set_ sgn shape share_memory_ short sigmoid
sign sin sinc sinh size slogdet softmax sort sparse_dim split split_with_sizes
sqrt square squeeze squeeze_ std storage storage_offset stride sub subtract sum
sum_to_size svd swapaxes swapdims t take take_along_dim tan tanh tensor_split
tile to to_dense to_sparse tolist topk trace transpose triangular_solve tril
triu true_divide trunc type type_as unbind unflatten unfold uniform_ unique
unique_consecutive unsafe_chunk unsafe_split unsqueeze unsqueeze_ values var view
view_as vsplit where xlogy zero_ add_ sub_ mul_ div_ clamp_ relu relu_ sigmoid_
tanh_ sqrt_ neg_ abs_ floor_ ceil_ round_ T H
'''.split())
