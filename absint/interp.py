"""Abstract interpreter for the Python source of the repository.

Parses /repo with `ast` and interprets it over the abstract values of
`tensor`/`terms`.  All calls into repository code are inlined (resolved through
the real class hierarchy), so helpers, wrappers and reorderings do not change
what is computed.  No repository code is ever imported or executed.
"""
import ast
import builtins
import math
import operator
import os
import sys
import traceback

from . import tensor as tn
from . import terms as tm
from .tensor import (T, S, Size, RepoError, Unsupported, PathDead, DT, Device,
                     Analysis, dev_of, mk_scalar, py2poly)
from .terms import P

sys.setrecursionlimit(20000)

ROOT = os.environ.get('OCNN_ROOT', '/repo')


class _Return(Exception):
  def __init__(self, v):
    self.v = v


class _Break(Exception):
  pass


class _Continue(Exception):
  pass


class Stub:
  """External object nothing is known about."""

  def __init__(self, name):
    self.__dict__['_name'] = name

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return Stub(self._name + '.' + n)

  def __call__(self, *a, **k):
    raise Unsupported('call of external ' + self._name)

  def __repr__(self):
    return '<external %s>' % self._name


class TypeTag:
  def __init__(self, name, pred, ctor=None):
    self.name, self.pred, self.ctor = name, pred, ctor

  def __call__(self, *a, **k):
    if self.ctor is None:
      raise Unsupported('constructor ' + self.name)
    return self.ctor(*a, **k)

  def __repr__(self):
    return '<type %s>' % self.name


class IModule:
  def __init__(self, name, file=None):
    self.name, self.file = name, file
    self.d = {'__name__': name, '__file__': file or name}

  def __repr__(self):
    return '<module %s>' % self.name


class NS:
  """Native namespace (external library model)."""

  def __init__(self, name, d):
    self.name, self.d = name, d

  def __repr__(self):
    return '<ns %s>' % self.name


class IFunction:
  def __init__(self, node, name, env, module, defaults, kwdefaults, defcls):
    self.node, self.name, self.env, self.module = node, name, env, module
    self.defaults, self.kwdefaults, self.defcls = defaults, kwdefaults, defcls
    self.d = {}
    self.qual = name

  def __call__(self, *a, **k):
    return IT.call_function(self, a, k)

  def __repr__(self):
    return '<function %s>' % self.qual


class BoundMethod:
  def __init__(self, f, self_):
    self.f, self.self_ = f, self_

  def __call__(self, *a, **k):
    return IT.call(self.f, (self.self_,) + a, k)

  def __repr__(self):
    return '<bound %r>' % (self.f,)

  def __eq__(self, o):
    return isinstance(o, BoundMethod) and o.f is self.f and o.self_ is self.self_

  def __hash__(self):
    return hash((id(self.f), id(self.self_)))


class StaticM:
  def __init__(self, f):
    self.f = f


class ClassM:
  def __init__(self, f):
    self.f = f


class Prop:
  def __init__(self, fget, fset=None):
    self.fget, self.fset = fget, fset

  def setter(self, f):
    return Prop(self.fget, f)

  def getter(self, f):
    return Prop(f, self.fset)


class IClass:
  def __init__(self, name, bases, d, module):
    self.name, self.bases, self.d, self.module = name, bases, d, module
    self.mro = self._c3()

  def _c3(self):
    seqs = [list(b.mro) if isinstance(b, IClass) else [b] for b in self.bases]
    seqs.append(list(self.bases))
    out = [self]
    seqs = [s for s in seqs if s]
    while seqs:
      for s in seqs:
        c = s[0]
        if not any(c in t[1:] for t in seqs):
          break
      else:
        raise RepoError('TypeError', 'inconsistent MRO of ' + self.name)
      out.append(c)
      seqs = [[x for x in s if x is not c] for s in seqs]
      seqs = [s for s in seqs if s]
    return out

  def lookup(self, n, after=None):
    mro = self.mro
    if after is not None:
      mro = mro[mro.index(after) + 1:]
    for c in mro:
      if isinstance(c, IClass):
        if n in c.d:
          return c.d[n]
    raise KeyError(n)

  def has(self, n):
    try:
      self.lookup(n)
      return True
    except KeyError:
      return False

  def sub(self, other):
    return other in self.mro

  def subname(self, nm):
    return any(isinstance(c, IClass) and c.name == nm for c in self.mro)

  def __call__(self, *a, **k):
    return IT.instantiate(self, a, k)

  def __repr__(self):
    return '<class %s>' % self.name


class IInstance:
  def __init__(self, cls):
    self.__dict__['cls'] = cls
    self.__dict__['d'] = {}

  def __call__(self, *a, **k):
    return IT.call(self, a, k)

  def __iter__(self):
    return iter(IT.iterate(self))

  def __len__(self):
    return IT.call(IT.getattr(self, '__len__'), (), {})

  def __getitem__(self, i):
    return IT.call(IT.getattr(self, '__getitem__'), (i,), {})

  def __setitem__(self, i, v):
    return IT.call(IT.getattr(self, '__setitem__'), (i, v), {})

  def __bool__(self):
    if self.cls.has('__bool__'):
      return bool(IT.call(IT.getattr(self, '__bool__'), (), {}))
    if self.cls.has('__len__'):
      return bool(len(self))
    return True

  def __repr__(self):
    return '<%s instance>' % self.cls.name

  # convenience for harnesses
  def get(self, n):
    return IT.getattr(self, n)

  def set(self, n, v):
    IT.setattr(self, n, v)

  def m(self, n, *a, **k):
    return IT.call(IT.getattr(self, n), a, k)


class SuperObj:
  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_


class Env:
  __slots__ = ('d', 'parent', 'module', 'globals_', 'nonlocals', 'fn', 'isclass')

  def __init__(self, parent, module, fn=None, isclass=False):
    self.d, self.parent, self.module, self.fn = {}, parent, module, fn
    self.globals_ = set()
    self.nonlocals = set()
    self.isclass = isclass

  def get(self, n):
    e = self
    first = True
    if n in self.globals_:
      e = None
    while e is not None:
      if n in e.d and (first or not e.isclass):
        return e.d[n]
      first = False
      e = e.parent
    md = self.module.d
    if n in md:
      return md[n]
    if n in IT.builtins:
      return IT.builtins[n]
    raise RepoError('NameError', "name '%s' is not defined" % n)

  def set(self, n, v):
    if n in self.globals_:
      self.module.d[n] = v
      return
    if n in self.nonlocals:
      e = self.parent
      while e is not None:
        if n in e.d:
          e.d[n] = v
          return
        e = e.parent
    self.d[n] = v


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
    ast.RShift: operator.rshift, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
    ast.MatMult: operator.matmul,
}
IOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
    ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
    ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.LShift: operator.ilshift,
    ast.RShift: operator.irshift, ast.BitOr: operator.ior,
    ast.BitAnd: operator.iand, ast.BitXor: operator.ixor,
    ast.MatMult: operator.imatmul,
}
OPNAMES = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitOr: 'or',
    ast.BitAnd: 'and', ast.BitXor: 'xor', ast.MatMult: 'matmul',
}
CMPS = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt,
    ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
}
UNOPS = {ast.UAdd: operator.pos, ast.USub: operator.neg,
         ast.Invert: operator.invert}
PYEXC = {'TypeError', 'ValueError', 'IndexError', 'KeyError', 'AttributeError',
         'ZeroDivisionError', 'RuntimeError', 'NotImplementedError',
         'AssertionError', 'ImportError', 'StopIteration', 'OSError',
         'FileNotFoundError', 'OverflowError', 'NameError', 'ArithmeticError',
         'LookupError', 'ModuleNotFoundError', 'EOFError', 'KeyboardInterrupt'}
PASS = (RepoError, Unsupported, PathDead, tm.Budget, _Return, _Break, _Continue,
        RecursionError, MemoryError)
AST_CACHE = {}


class ExcValue:
  """A raised Python exception value."""

  def __init__(self, kind, args=()):
    self.kind, self.args = kind, args

  def __repr__(self):
    return '%s%r' % (self.kind, self.args)


class Interp:

  def __init__(self, natives):
    self.modules = {}
    self.natives = natives          # name -> callable building an NS
    self.paths = [ROOT]
    self.builtins = make_builtins(self)
    self.called = {}                # functions analysed (qual -> count)
    self.hooks = {}                 # qualname -> native replacement
    self.depth = 0
    self.loops = 0
    self.cls_stack = []

  # -- modules ------------------------------------------------------------
  def parse(self, file):
    try:
      st = os.stat(file)
      key = (file, st.st_mtime_ns, st.st_size)
      if key not in AST_CACHE:
        with open(file, encoding='utf-8') as f:
          AST_CACHE[key] = ast.parse(f.read(), file)
      return AST_CACHE[key]
    except SyntaxError as ex:
      raise Unsupported('cannot parse %s: %s' % (file, ex))

  def find(self, name):
    rel = name.replace('.', '/')
    for p in self.paths:
      f = os.path.join(p, rel + '.py')
      if os.path.isfile(f):
        return f
      f = os.path.join(p, rel, '__init__.py')
      if os.path.isfile(f):
        return f
    return None

  def import_module(self, name):
    if name in self.modules:
      return self.modules[name]
    if name in self.natives:
      m = self.natives[name](self)
      self.modules[name] = m
      return m
    file = None if name.split('.')[0] in self.natives else self.find(name)
    if file is None:
      if '.' in name:
        par = self.import_module(name.rsplit('.', 1)[0])
        try:
          return self.getattr(par, name.rsplit('.', 1)[1])
        except RepoError:
          pass
        if isinstance(par, IModule):
          raise RepoError('ModuleNotFoundError', "No module named '%s'" % name)
      m = Stub(name)
      self.modules[name] = m
      return m
    if '.' in name:
      self.import_module(name.rsplit('.', 1)[0])
      if name in self.modules:
        return self.modules[name]
    m = IModule(name, file)
    m.pkg = name if file.endswith('__init__.py') else name.rpartition('.')[0]
    self.modules[name] = m
    if '.' in name:
      p, c = name.rsplit('.', 1)
      pm = self.modules.get(p)
      if isinstance(pm, IModule):
        pm.d[c] = m
    self.run_module(m, self.parse(file))
    return m

  def run_module(self, m, tree):
    env = Env(None, m)
    env.d = m.d
    tn.AN.frames.append([m.file, 0, '<module>'])
    try:
      self.exec_block(tree.body, env)
    finally:
      tn.AN.frames.pop()

  def load_source(self, name, src):
    m = IModule(name, '<' + name + '>')
    m.pkg = ''
    self.modules[name] = m
    self.run_module(m, ast.parse(src))
    return m

  # -- attributes -----------------------------------------------------------
  def getattr(self, o, n):
    if isinstance(o, IInstance):
      return self.inst_attr(o, n)
    if isinstance(o, IModule):
      if n in o.d:
        return o.d[n]
      f = self.find(o.name + '.' + n) if o.file else None
      if f and (o.name + '.' + n) in self.modules:
        return self.modules[o.name + '.' + n]
      if n == '__dict__':
        return o.d
      raise RepoError('AttributeError', "module '%s' has no attribute '%s'" % (o.name, n))
    if isinstance(o, NS):
      if n in o.d:
        return o.d[n]
      full = o.name + '.' + n
      if full in self.natives:
        return self.import_module(full)
      raise Unsupported('%s.%s is not modelled' % (o.name, n))
    if isinstance(o, IClass):
      try:
        v = o.lookup(n)
      except KeyError:
        if n == '__name__' or n == '__qualname__':
          return o.name
        if n == '__module__':
          return o.module.name
        if n == 'apply' and o.subname('Function'):
          return self.fn_apply(o)
        if n == '__init__':
          return lambda *a, **k: None
        if any(isinstance(c, Stub) for c in o.mro):
          raise Unsupported('attribute of external base')
        raise RepoError('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, n))
      if isinstance(v, StaticM):
        return v.f
      if isinstance(v, ClassM):
        return BoundMethod(v.f, o)
      return v
    if isinstance(o, SuperObj):
      cls = o.self_.cls if isinstance(o.self_, IInstance) else o.self_
      try:
        v = cls.lookup(n, o.cls)
      except KeyError:
        if n == '__init__':
          return lambda *a, **k: None
        nat = [c for c in cls.mro if not isinstance(c, IClass)]
        if any(isinstance(c, Stub) for c in nat):
          raise Unsupported('super().%s of an external base' % n)
        if n == '__setattr__':
          return lambda k, v: o.self_.d.__setitem__(k, v)
        raise RepoError('AttributeError', "'super' object has no attribute '%s'" % n)
      if isinstance(v, StaticM):
        return v.f
      if isinstance(v, Prop):
        return self.call(v.fget, (o.self_,), {})
      if isinstance(v, ClassM):
        return BoundMethod(v.f, cls)
      if isinstance(v, IFunction) or callable(v):
        return BoundMethod(v, o.self_)
      return v
    if isinstance(o, IFunction):
      if n in o.d:
        return o.d[n]
      if n in ('__name__', '__qualname__'):
        return o.name
      if n == '__defaults__':
        return tuple(o.defaults)
      raise RepoError('AttributeError', "'function' object has no attribute '%s'" % n)
    if isinstance(o, Stub):
      return getattr(o, n)
    if isinstance(o, T):
      if n.startswith('_') or n in ('Tn',):
        raise Unsupported('tensor attribute ' + n)
      if o._isnp and n in IT_NP_ATTR:
        return IT_NP_ATTR[n](o)
      try:
        return getattr(o, n)
      except AttributeError:
        if n in o.__dict__:
          return o.__dict__[n]
        if n in TENSOR_NAMES:
          raise Unsupported('tensor method %s is not modelled' % n)
        raise RepoError('AttributeError', "'Tensor' object has no attribute '%s'" % n)
    if isinstance(o, S):
      if n in ('item', 'is_integer', 'real'):
        return getattr(o, n)
      raise RepoError('AttributeError', "'int' object has no attribute '%s'" % n)
    if isinstance(o, ExcValue):
      if n == 'args':
        return o.args
      raise Unsupported('exception attribute')
    if isinstance(o, tn.DType):
      if n == 'is_floating_point':
        return o.is_floating_point
      raise Unsupported('dtype.' + n)
    try:
      return getattr(o, n)
    except AttributeError as ex:
      if isinstance(o, (str, list, tuple, dict, set, int, float, bool, type(None), type)):
        raise RepoError('AttributeError', str(ex))
      raise Unsupported(str(ex))

  def inst_attr(self, o, n):
    try:
      v = o.cls.lookup(n)
      found = True
    except KeyError:
      found = False
    if found and isinstance(v, Prop):
      return self.call(v.fget, (o,), {})
    if n in o.d:
      return o.d[n]
    if found:
      if isinstance(v, StaticM):
        return v.f
      if isinstance(v, ClassM):
        return BoundMethod(v.f, o.cls)
      if isinstance(v, IFunction) or (callable(v) and not isinstance(
          v, (IClass, IInstance, TypeTag, type, Stub, tn.DType, T, S))):
        return BoundMethod(v, o)
      return v
    if n == '__class__':
      return o.cls
    if n == '__dict__':
      return o.d
    try:
      g = o.cls.lookup('__getattr__')
    except KeyError:
      g = None
    if g is not None:
      return self.call(g, (o, n), {})
    if n == '__init__':
      return lambda *a, **k: None
    if any(isinstance(c, Stub) for c in o.cls.mro):
      raise Unsupported('attribute %s of a class with an external base' % n)
    raise RepoError('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, n))

  def setattr(self, o, n, v):
    if isinstance(o, IInstance):
      try:
        c = o.cls.lookup(n)
        if isinstance(c, Prop):
          if c.fset is None:
            raise RepoError('AttributeError', "property '%s' has no setter" % n)
          return self.call(c.fset, (o, v), {})
      except KeyError:
        pass
      if o.cls.has('__setattr__'):
        return self.call(o.cls.lookup('__setattr__'), (o, n, v), {})
      if o.cls.subname('Module') and 'training' not in o.d and (
          isinstance(v, T) and v._isparam or
          isinstance(v, IInstance) and v.cls.subname('Module')):
        raise RepoError('AttributeError',
                        'cannot assign module/parameter before Module.__init__() call')
      old = o.d.get(n)
      org = o.d.get('__origin__')
      if org is not None:
        tn.AN.event('setattr', origin=org, attr=n)
      o.d[n] = v
      return
    if isinstance(o, (IModule, NS)):
      o.d[n] = v
      return
    if isinstance(o, IClass):
      o.d[n] = v
      return
    if isinstance(o, IFunction):
      o.d[n] = v
      return
    if isinstance(o, T):
      if n in ('requires_grad', 'grad', 'data'):
        setattr(o, n, v)
        return
      o.__dict__[n] = v
      return
    if isinstance(o, FnCtx):
      setattr(o, n, v)
      return
    raise Unsupported('attribute assignment on %r' % (type(o).__name__,))

  # -- calls ------------------------------------------------------------------
  def call(self, f, args, kw):
    if isinstance(f, IFunction):
      return self.call_function(f, args, kw)
    if isinstance(f, BoundMethod):
      return self.call(f.f, (f.self_,) + tuple(args), kw)
    if isinstance(f, IClass):
      return self.instantiate(f, args, kw)
    if isinstance(f, IInstance):
      try:
        c = f.cls.lookup('__call__')
      except KeyError:
        raise RepoError('TypeError', "'%s' object is not callable" % f.cls.name)
      return self.call(c, (f,) + tuple(args), kw)
    if isinstance(f, StaticM):
      return self.call(f.f, args, kw)
    if f is None or isinstance(f, (int, float, str, list, tuple, dict, T, S)):
      raise RepoError('TypeError', "'%s' object is not callable" % type(f).__name__)
    try:
      return f(*args, **kw)
    except PASS:
      raise
    except ZeroDivisionError as ex:
      raise RepoError('ZeroDivisionError', str(ex))
    except (IndexError, KeyError, StopIteration) as ex:
      if _native_py(f):
        raise RepoError(type(ex).__name__, str(ex))
      raise Unsupported('%s in %s: %s' % (type(ex).__name__, _fname(f), tb()))
    except (TypeError, ValueError, AttributeError, OverflowError) as ex:
      if _native_py(f) and not any(isinstance(a, (S, T)) for a in args):
        raise RepoError(type(ex).__name__, str(ex))
      raise Unsupported('%s in %s: %s %s' % (type(ex).__name__, _fname(f), ex, tb()))

  def bind(self, f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = {}
    args = list(args)
    if len(args) > len(names) and a.vararg is None:
      raise RepoError('TypeError', '%s() takes %d positional arguments but %d were given'
                      % (f.name, len(names), len(args)))
    for n, v in zip(names, args):
      d[n] = v
    if a.vararg is not None:
      d[a.vararg.arg] = tuple(args[len(names):])
    kw = dict(kw)
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
      if k in names or k in kwonly:
        if k in d:
          raise RepoError('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
        d[k] = v
      elif a.kwarg is not None:
        extra[k] = v
      else:
        raise RepoError('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
    if a.kwarg is not None:
      d[a.kwarg.arg] = extra
    off = len(names) - len(f.defaults)
    for i, n in enumerate(names):
      if n not in d:
        if i >= off:
          d[n] = f.defaults[i - off]
        else:
          raise RepoError('TypeError', "%s() missing required argument '%s'" % (f.name, n))
    for n in kwonly:
      if n not in d:
        if n in f.kwdefaults:
          d[n] = f.kwdefaults[n]
        else:
          raise RepoError('TypeError', "%s() missing keyword-only argument '%s'" % (f.name, n))
    return d

  def call_function(self, f, args, kw):
    hook = self.hooks.get(f.qual)
    if hook is not None:
      return hook(*args, **kw)
    env = Env(f.env, f.module, f)
    env.d.update(self.bind(f, args, kw))
    if isinstance(f.node, ast.Lambda):
      return self.eval(f.node.body, env)
    self.called[f.qual] = self.called.get(f.qual, 0) + 1
    if self.depth > 200:
      raise Unsupported('recursion too deep in ' + f.qual)
    self.depth += 1
    frames = tn.AN.frames
    n0 = len(frames)
    frames.append([f.module.file, f.node.lineno, f.qual])
    gen = getattr(f.node, '_isgen', None)
    if gen is None:
      gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
      f.node._isgen = gen
    if gen:
      env.d['%yield'] = []
    try:
      self.exec_block(f.node.body, env)
      r = None
    except _Return as ex:
      r = ex.v
    finally:
      del frames[n0:]
      self.depth -= 1
    if gen:
      return iter(env.d['%yield'])
    return r

  def instantiate(self, cls, args, kw):
    for c in cls.mro:
      if isinstance(c, Stub):
        break
      if isinstance(c, str) and c in PYEXC:
        return ExcValue(cls.name, tuple(args))
    o = IInstance(cls)
    if cls.subname('Module'):
      o.d['__order__'] = len(self.cls_stack)
    try:
      init = cls.lookup('__init__')
    except KeyError:
      if any(isinstance(c, Stub) for c in cls.mro):
        raise Unsupported('constructor of external base of ' + cls.name)
      if args or kw:
        raise RepoError('TypeError', '%s() takes no arguments' % cls.name)
      return o
    self.call(init, (o,) + tuple(args), kw)
    return o

  def fn_apply(self, cls):
    def apply(*args, **kw):
      ctx = FnCtx()
      ctx.needs_input_grad = tuple(isinstance(a, T) and a._dt in FLOATS
                                   for a in args)
      r = self.call(self.getattr(cls, 'forward'), (ctx,) + tuple(args), kw)
      tn.AN.event('function', cls=cls, ctx=ctx, args=args, out=r)
      return r
    return apply

  # -- iteration --------------------------------------------------------------
  def iterate(self, o):
    if isinstance(o, IInstance):
      if o.cls.has('__iter__'):
        return self.iterate(self.call(self.getattr(o, '__iter__'), (), {}))
      if o.cls.has('__getitem__') and o.cls.has('__len__'):
        g = self.getattr(o, '__getitem__')
        return [self.call(g, (i,), {}) for i in range(len(o))]
      raise RepoError('TypeError', "'%s' object is not iterable" % o.cls.name)
    if isinstance(o, (T, list, tuple, dict, str, range, set, frozenset)) or \
        hasattr(o, '__next__') or hasattr(o, '__iter__'):
      return o
    if isinstance(o, S):
      raise RepoError('TypeError', 'int is not iterable')
    if isinstance(o, Stub):
      raise Unsupported('iteration over ' + repr(o))
    raise RepoError('TypeError', 'object %r is not iterable' % (o,))

  def truth(self, v):
    if isinstance(v, (Stub,)):
      raise Unsupported('truth value of ' + repr(v))
    return bool(v)

  # -- statements ---------------------------------------------------------------
  def exec_block(self, body, env):
    fr = tn.AN.frames[-1]
    for st in body:
      fr[1] = st.lineno
      getattr(self, 's_' + type(st).__name__, self.s_unknown)(st, env)

  def s_unknown(self, st, env):
    raise Unsupported('statement ' + type(st).__name__)

  def s_Expr(self, st, env):
    if isinstance(st.value, ast.Constant):
      return
    self.eval(st.value, env)

  def s_Pass(self, st, env):
    pass

  def s_Break(self, st, env):
    raise _Break()

  def s_Continue(self, st, env):
    raise _Continue()

  def s_Return(self, st, env):
    raise _Return(None if st.value is None else self.eval(st.value, env))

  def s_Import(self, st, env):
    for a in st.names:
      m = self.import_module(a.name)
      if a.asname:
        env.set(a.asname, m)
      else:
        env.set(a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

  def s_ImportFrom(self, st, env):
    name = st.module or ''
    if st.level:
      pkg = getattr(env.module, 'pkg', '')
      for _ in range(st.level - 1):
        pkg = pkg.rpartition('.')[0]
      name = pkg + ('.' + name if name else '')
    m = self.import_module(name)
    for a in st.names:
      if a.name == '*':
        if isinstance(m, Stub):
          continue
        names = m.d.get('__all__')
        for k in (names if names is not None else
                  [k for k in m.d if not k.startswith('_')]):
          env.set(k, self.getattr(m, k))
        continue
      try:
        v = self.getattr(m, a.name)
      except RepoError:
        if isinstance(m, IModule) and self.find(name + '.' + a.name):
          v = self.import_module(name + '.' + a.name)
        else:
          raise RepoError('ImportError', "cannot import name '%s' from '%s'" % (a.name, name))
      env.set(a.asname or a.name, v)

  def s_Global(self, st, env):
    env.globals_ |= set(st.names)

  def s_Nonlocal(self, st, env):
    env.nonlocals |= set(st.names)

  def s_Assign(self, st, env):
    v = self.eval(st.value, env)
    for t in st.targets:
      self.assign(t, v, env)

  def s_AnnAssign(self, st, env):
    if st.value is not None:
      self.assign(st.target, self.eval(st.value, env), env)

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      env.set(t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vs = list(self.iterate(v))
      star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
      if star:
        i = star[0]
        k = len(t.elts) - i - 1
        if len(vs) < len(t.elts) - 1:
          raise RepoError('ValueError', 'not enough values to unpack')
        for x, y in zip(t.elts[:i], vs[:i]):
          self.assign(x, y, env)
        self.assign(t.elts[i].value, vs[i:len(vs) - k], env)
        for x, y in zip(t.elts[i + 1:], vs[len(vs) - k:]):
          self.assign(x, y, env)
        return
      if len(vs) != len(t.elts):
        raise RepoError('ValueError', 'cannot unpack %d values into %d targets'
                        % (len(vs), len(t.elts)))
      for x, y in zip(t.elts, vs):
        self.assign(x, y, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      self.setitem(o, self.eval(t.slice, env), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, env)
    else:
      raise Unsupported('assignment target')

  def setitem(self, o, i, v):
    if isinstance(o, IInstance):
      return self.call(self.getattr(o, '__setitem__'), (i, v), {})
    if isinstance(o, (list, dict)) and id(o) in OWNED:
      tn.AN.event('mutate', origin=OWNED[id(o)][1])
    if isinstance(o, list) and isinstance(i, S):
      raise Unsupported('list store at a symbolic index')
    try:
      o[i] = v
    except PASS:
      raise
    except (IndexError, TypeError, ValueError, KeyError) as ex:
      if isinstance(o, (list, dict, tuple, str, int)):
        raise RepoError(type(ex).__name__, str(ex))
      raise Unsupported('setitem: %s %s' % (ex, tb()))

  def getitem(self, o, i):
    if isinstance(o, IInstance):
      try:
        g = o.cls.lookup('__getitem__')
      except KeyError:
        raise RepoError('TypeError', "'%s' object is not subscriptable" % o.cls.name)
      return self.call(g, (o, i), {})
    if isinstance(o, (IClass, TypeTag, Stub)) or isinstance(o, type):
      return o                      # typing subscripts
    if isinstance(o, (list, tuple, str)) and isinstance(i, (S, T)):
      if isinstance(i, T):
        i = i.__index__()
      else:
        raise Unsupported('list index is symbolic')
    if isinstance(o, dict) and isinstance(i, S):
      raise Unsupported('dict key is symbolic')
    try:
      r = o[i]
    except PASS:
      raise
    except (IndexError, KeyError, TypeError) as ex:
      if isinstance(o, (list, dict, tuple, str, int, float, type(None))):
        raise RepoError(type(ex).__name__, str(ex))
      raise Unsupported('getitem: %s %s' % (ex, tb()))
    return r

  def s_AugAssign(self, st, env):
    t = st.target
    v = None
    if isinstance(t, ast.Name):
      cur = env.get(t.id)
      r = self.binop(st.op, cur, self.eval(st.value, env), inplace=True)
      env.set(t.id, r)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env)
      cur = self.getattr(o, t.attr)
      r = self.binop(st.op, cur, self.eval(st.value, env), inplace=True)
      self.setattr(o, t.attr, r)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      i = self.eval(t.slice, env)
      cur = self.getitem(o, i)
      r = self.binop(st.op, cur, self.eval(st.value, env), inplace=True)
      self.setitem(o, i, r)
    else:
      raise Unsupported('augmented assignment target')

  def s_Delete(self, st, env):
    for t in st.targets:
      if isinstance(t, ast.Name):
        env.d.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        i = self.eval(t.slice, env)
        try:
          del o[i]
        except (IndexError, KeyError) as ex:
          raise RepoError(type(ex).__name__, str(ex))
      elif isinstance(t, ast.Attribute):
        o = self.eval(t.value, env)
        if isinstance(o, IInstance):
          o.d.pop(t.attr, None)

  def s_If(self, st, env):
    if self.truth(self.eval(st.test, env)):
      self.exec_block(st.body, env)
    else:
      self.exec_block(st.orelse, env)

  def s_For(self, st, env):
    it = self.eval(st.iter, env)
    n = 0
    broke = False
    for v in self.iterate(it):
      n += 1
      if n > 100000:
        raise Unsupported('loop bound')
      self.assign(st.target, v, env)
      try:
        self.exec_block(st.body, env)
      except _Break:
        broke = True
        break
      except _Continue:
        continue
    if not broke:
      self.exec_block(st.orelse, env)

  def s_While(self, st, env):
    n = 0
    while self.truth(self.eval(st.test, env)):
      n += 1
      if n > 20000:
        raise Unsupported('while loop bound')
      try:
        self.exec_block(st.body, env)
      except _Break:
        return
      except _Continue:
        continue
    self.exec_block(st.orelse, env)

  def s_Assert(self, st, env):
    v = self.eval(st.test, env)
    self.check(v, 'assertion failed: ' + src(st.test))

  def check(self, v, msg):
    if isinstance(v, (S, T)):
      p = py2poly(v)
      if isinstance(v, T) and v._dt != 'bool':
        p = tm.Not(tm.Eq(p))
      p = tn.apply_truth(p)
      c = p.const()
      if c is None:
        tn.AN.assumed.append((p, tn.AN.where()))
        tn.AN.assume(p, True)
        return
      v = c != 0
    if not self.truth(v):
      raise RepoError('AssertionError', msg)

  def s_Raise(self, st, env):
    if st.exc is None:
      raise RepoError('RuntimeError', 're-raise')
    v = self.eval(st.exc, env)
    if isinstance(v, type) and issubclass(v, BaseException):
      raise RepoError(v.__name__, '')
    if isinstance(v, BaseException):
      raise RepoError(type(v).__name__, str(v))
    if isinstance(v, ExcValue):
      raise RepoError(v.kind, ' '.join(map(str, v.args)))
    if isinstance(v, IClass):
      raise RepoError(v.name, '')
    raise RepoError('Exception', repr(v))

  def s_Try(self, st, env):
    frames = tn.AN.frames
    n0, d0 = len(frames), self.depth
    try:
      try:
        self.exec_block(st.body, env)
      except RepoError as ex:
        del frames[n0:]
        self.depth = d0
        for h in st.handlers:
          if h.type is None or self.matches(ex, self.eval(h.type, env)):
            if h.name:
              env.set(h.name, ExcValue(ex.kind, (ex.msg,)))
            self.exec_block(h.body, env)
            return
        raise
      else:
        self.exec_block(st.orelse, env)
    finally:
      self.exec_block(st.finalbody, env)

  def matches(self, ex, t):
    if isinstance(t, tuple):
      return any(self.matches(ex, x) for x in t)
    if isinstance(t, type):
      if t in (Exception, BaseException):
        return True
      k = getattr(builtins, ex.kind, None)
      return isinstance(k, type) and issubclass(k, t)
    if isinstance(t, IClass):
      return ex.kind == t.name
    return False

  def s_With(self, st, env):
    ms = []
    for it in st.items:
      m = self.eval(it.context_expr, env)
      v = m
      if isinstance(m, IInstance) and m.cls.has('__enter__'):
        v = self.call(self.getattr(m, '__enter__'), (), {})
      elif hasattr(m, 'abs_enter'):
        v = m.abs_enter()
      elif isinstance(m, Stub):
        raise Unsupported('context manager ' + repr(m))
      ms.append(m)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, env)
    try:
      self.exec_block(st.body, env)
    finally:
      for m in reversed(ms):
        if hasattr(m, 'abs_exit'):
          m.abs_exit()
        elif isinstance(m, IInstance) and m.cls.has('__exit__'):
          self.call(self.getattr(m, '__exit__'), (None, None, None), {})

  def s_FunctionDef(self, st, env):
    f = self.make_fn(st, st.name, env)
    for d in reversed(st.decorator_list):
      f = self.decorate(self.eval(d, env), f)
    env.set(st.name, f)

  def decorate(self, d, f):
    if isinstance(d, Stub):
      return f
    if hasattr(d, 'abs_enter'):
      return f
    return self.call(d, (f,), {})

  def make_fn(self, node, name, env):
    a = node.args
    defaults = [self.eval(d, env) for d in a.defaults]
    kwd = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults)
           if d is not None}
    cenv = env if env.d is not env.module.d else None
    f = IFunction(node, name, cenv, env.module, defaults, kwd,
                  self.cls_stack[-1] if env.isclass and self.cls_stack else None)
    pre = env.module.name + '.'
    if env.isclass:
      pre += env.d.get('__qualname__', '?') + '.'
    elif env.fn is not None:
      pre = env.fn.qual + '.'
    f.qual = pre + name
    for d in defaults:
      if isinstance(d, (list, dict)):
        OWNED[id(d)] = (d, ('default argument', f.qual))
    return f

  def s_ClassDef(self, st, env):
    bases = [self.eval(b, env) for b in st.bases]
    bs = []
    for b in bases:
      if b is object:
        continue
      if isinstance(b, type) and issubclass(b, BaseException):
        b = b.__name__
      bs.append(b)
    d = {}
    cenv = Env(env if env.d is not env.module.d else None, env.module, env.fn, True)
    cenv.d['__qualname__'] = st.name
    cls = IClass(st.name, bs, d, env.module)
    self.cls_stack.append(cls)
    try:
      self.exec_block(st.body, cenv)
    finally:
      self.cls_stack.pop()
    d.update(cenv.d)
    r = cls
    for dec in reversed(st.decorator_list):
      r = self.decorate(self.eval(dec, env), r)
    env.set(st.name, r)

  # -- expressions -----------------------------------------------------------
  def eval(self, e, env):
    return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, env)

  def e_unknown(self, e, env):
    raise Unsupported('expression ' + type(e).__name__)

  def e_Constant(self, e, env):
    return e.value

  def e_Name(self, e, env):
    return env.get(e.id)

  def e_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)

  def e_Subscript(self, e, env):
    o = self.eval(e.value, env)
    return self.getitem(o, self.eval(e.slice, env))

  def e_Slice(self, e, env):
    return slice(*(None if x is None else self.eval(x, env)
                   for x in (e.lower, e.upper, e.step)))

  def e_Tuple(self, e, env):
    return tuple(self.elts(e.elts, env))

  def e_List(self, e, env):
    return list(self.elts(e.elts, env))

  def e_Set(self, e, env):
    return set(self.elts(e.elts, env))

  def elts(self, es, env):
    out = []
    for x in es:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.eval(x.value, env)))
      else:
        out.append(self.eval(x, env))
    return out

  def e_Dict(self, e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        d.update(self.eval(v, env))
      else:
        d[self.eval(k, env)] = self.eval(v, env)
    return d

  def e_JoinedStr(self, e, env):
    return ''.join(str(self.eval(x, env)) for x in e.values)

  def e_FormattedValue(self, e, env):
    v = self.eval(e.value, env)
    if e.format_spec is not None and isinstance(v, (int, float, str)):
      try:
        return format(v, self.eval(e.format_spec, env))
      except ValueError as ex:
        raise RepoError('ValueError', str(ex))
    return str(v)

  def e_BinOp(self, e, env):
    a = self.eval(e.left, env)
    b = self.eval(e.right, env)
    return self.binop(e.op, a, b)

  def binop(self, op, a, b, inplace=False):
    if isinstance(a, IInstance) or isinstance(b, IInstance):
      nm = OPNAMES[type(op)]
      if isinstance(a, IInstance):
        if inplace and a.cls.has('__i%s__' % nm):
          return self.call(self.getattr(a, '__i%s__' % nm), (b,), {})
        if a.cls.has('__%s__' % nm):
          return self.call(self.getattr(a, '__%s__' % nm), (b,), {})
      if isinstance(b, IInstance) and b.cls.has('__r%s__' % nm):
        return self.call(self.getattr(b, '__r%s__' % nm), (a,), {})
      raise RepoError('TypeError', 'unsupported operand types for ' + nm)
    if isinstance(a, Stub) or isinstance(b, Stub):
      raise Unsupported('operator on external value')
    if isinstance(a, str) and isinstance(op, ast.Mod):
      try:
        return a % b
      except (TypeError, ValueError) as ex:
        return '<formatted>'
    if inplace and isinstance(a, list) and id(a) in OWNED:
      tn.AN.event('mutate', origin=OWNED[id(a)][1])
    if isinstance(a, (list, tuple, str)) and isinstance(b, S) or \
        isinstance(b, (list, tuple, str)) and isinstance(a, S):
      raise Unsupported('sequence repetition by a symbolic number')
    if isinstance(op, ast.Pow) and isinstance(a, (int, float)) and \
        isinstance(b, int) and abs(b) > 4096:
      raise Unsupported('large power')
    f = (IOPS if inplace else BINOPS)[type(op)]
    try:
      return f(a, b)
    except PASS:
      raise
    except ZeroDivisionError as ex:
      raise RepoError('ZeroDivisionError', str(ex))
    except TypeError as ex:
      if isinstance(a, (T, S)) or isinstance(b, (T, S)):
        if a is None or b is None or isinstance(a, (str, dict)) or isinstance(b, (str, dict)):
          raise RepoError('TypeError', str(ex))
        raise Unsupported('operator: %s %s' % (ex, tb()))
      raise RepoError('TypeError', str(ex))
    except (ValueError, OverflowError) as ex:
      raise RepoError(type(ex).__name__, str(ex))

  def e_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
      if isinstance(v, S):
        return mk_scalar(tm.Not(P(v.p) if v.isbool else tm.Not(tm.Eq(v.p))), True)
      return not self.truth(v)
    if isinstance(v, IInstance):
      nm = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)]
      return self.call(self.getattr(v, nm), (), {})
    try:
      return UNOPS[type(e.op)](v)
    except TypeError as ex:
      raise RepoError('TypeError', str(ex))

  def e_BoolOp(self, e, env):
    isand = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
      v = self.eval(x, env)
      if i == len(e.values) - 1:
        return v
      t = self.truth(v)
      if t != isand:
        # after a decided symbolic condition return a plain bool
        return t if isinstance(v, (S,)) and v.isbool else v
    return v

  def e_Compare(self, e, env):
    left = self.eval(e.left, env)
    res = None
    for op, rx in zip(e.ops, e.comparators):
      right = self.eval(rx, env)
      r = self.compare(op, left, right)
      if len(e.ops) == 1:
        return r
      if not self.truth(r):
        return False
      res = True
      left = right
    return res

  def compare(self, op, a, b):
    if isinstance(op, ast.Is):
      return same(a, b)
    if isinstance(op, ast.IsNot):
      return not same(a, b)
    if isinstance(op, (ast.In, ast.NotIn)):
      if isinstance(b, IInstance):
        if b.cls.has('__contains__'):
          r = self.truth(self.call(self.getattr(b, '__contains__'), (a,), {}))
        else:
          r = any(self.truth(self.compare(ast.Eq(), a, x)) for x in self.iterate(b))
      elif isinstance(b, (list, tuple, set, dict, str, range)) or hasattr(b, '__contains__'):
        if isinstance(a, S) and isinstance(b, (list, tuple)):
          r = any(self.truth(a == x) for x in b)
        elif isinstance(a, S):
          raise Unsupported('membership of a symbolic value')
        else:
          try:
            r = a in b
          except TypeError as ex:
            raise RepoError('TypeError', str(ex))
      elif hasattr(b, '__iter__'):
        r = a in list(b)
      else:
        raise RepoError('TypeError', 'argument is not iterable')
      return r if isinstance(op, ast.In) else not r
    if isinstance(a, IInstance) or isinstance(b, IInstance):
      nm = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.LtE: '__le__',
            ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
      if isinstance(a, IInstance) and a.cls.has(nm):
        return self.call(self.getattr(a, nm), (b,), {})
      if nm == '__eq__':
        return a is b
      if nm == '__ne__':
        return a is not b
      raise RepoError('TypeError', 'unorderable')
    if isinstance(a, Stub) or isinstance(b, Stub):
      raise Unsupported('comparison with external value')
    try:
      return CMPS[type(op)](a, b)
    except PASS:
      raise
    except TypeError as ex:
      if isinstance(a, (T, S)) and isinstance(b, (T, S)):
        raise Unsupported(str(ex))
      raise RepoError('TypeError', str(ex))

  def e_IfExp(self, e, env):
    if self.truth(self.eval(e.test, env)):
      return self.eval(e.body, env)
    return self.eval(e.orelse, env)

  def e_Lambda(self, e, env):
    return self.make_fn(e, '<lambda>', env)

  def e_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    env.set(e.target.id, v)
    return v

  def e_Starred(self, e, env):
    raise Unsupported('starred expression')

  def e_Yield(self, e, env):
    x = env
    while x is not None and '%yield' not in x.d:
      x = x.parent
    x.d['%yield'].append(None if e.value is None else self.eval(e.value, env))

  def e_YieldFrom(self, e, env):
    x = env
    while x is not None and '%yield' not in x.d:
      x = x.parent
    x.d['%yield'].extend(self.iterate(self.eval(e.value, env)))

  def e_Call(self, e, env):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      return self.zero_super(env)
    f = self.eval(e.func, env)
    args = self.elts(e.args, env)
    kw = {}
    for k in e.keywords:
      if k.arg is None:
        m = self.eval(k.value, env)
        if isinstance(m, IInstance):
          m = {x: m[x] for x in self.call(self.getattr(m, 'keys'), (), {})}
        if isinstance(m, dict) and not all(isinstance(x, str) for x in m):
          raise RepoError('TypeError', 'keywords must be strings')
        kw.update(m)
      else:
        kw[k.arg] = self.eval(k.value, env)
    fr = tn.AN.frames[-1]
    ln = fr[1]
    fr[1] = e.lineno
    if isinstance(e.func, ast.Attribute) and type(f) is type(MUT) and \
        e.func.attr in LISTMUT and id(f.__self__) in OWNED:
      tn.AN.event('mutate', origin=OWNED[id(f.__self__)][1])
    r = self.call(f, tuple(args), kw)
    fr[1] = ln
    return r

  def zero_super(self, env):
    x = env
    while x is not None and (x.fn is None or x.fn.defcls is None):
      x = x.parent
    if x is None:
      raise Unsupported('super() outside a method')
    f = x.fn
    a = f.node.args
    nm = (a.posonlyargs + a.args)[0].arg
    return SuperObj(f.defcls, x.get(nm))

  def comp(self, gens, env, emit):
    g = gens[0]
    for v in self.iterate(self.eval(g.iter, env)):
      self.assign(g.target, v, env)
      ok = True
      for c in g.ifs:
        if not self.truth(self.eval(c, env)):
          ok = False
          break
      if not ok:
        continue
      if len(gens) > 1:
        self.comp(gens[1:], env, emit)
      else:
        emit()

  def e_ListComp(self, e, env):
    out = []
    ce = Env(env, env.module, env.fn)
    # iteration source is evaluated in the enclosing scope (class bodies)
    self.comp(e.generators, ce, lambda: out.append(self.eval(e.elt, ce)))
    return out

  def e_GeneratorExp(self, e, env):
    return iter(self.e_ListComp(e, env))

  def e_SetComp(self, e, env):
    return set(self.e_ListComp(e, env))

  def e_DictComp(self, e, env):
    out = {}
    ce = Env(env, env.module, env.fn)

    def emit():
      out[self.eval(e.key, ce)] = self.eval(e.value, ce)
    self.comp(e.generators, ce, emit)
    return out


# ------------------------------------------------------------------ helpers
FLOATS = ('float16', 'bfloat16', 'float32', 'float64')
MUT = [].append
LISTMUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
           'reverse', 'update', 'setdefault', 'popitem'}
OWNED = {}       # id(list/dict) -> (object, origin)
IT_NP_ATTR = {}
TENSOR_NAMES = set()
IT = None


class FnCtx:
  """autograd ctx"""

  def __init__(self):
    self.saved_tensors = ()
    self.needs_input_grad = ()

  def save_for_backward(self, *ts):
    self.saved_tensors = tuple(ts)

  def mark_non_differentiable(self, *a):
    pass

  def mark_dirty(self, *a):
    pass

  def set_materialize_grads(self, v):
    pass


def walk_own(fn):
  """Nodes of a function excluding nested functions."""
  st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
  while st:
    n = st.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    st.extend(ast.iter_child_nodes(n))


def same(a, b):
  if isinstance(a, BoundMethod):
    return a == b
  if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
    return a is b or (type(a) is type(b) and a == b)
  return a is b


def src(n):
  try:
    return ast.unparse(n)
  except Exception:
    return '?'


def tb():
  t = traceback.extract_tb(sys.exc_info()[2])
  t = [f for f in t if 'interp.py' not in f.filename][-3:]
  return ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                     for f in reversed(t))


def _fname(f):
  return getattr(f, '__qualname__', None) or getattr(f, '__name__', None) or repr(f)


def _native_py(f):
  """plain Python builtins, whose exceptions are exact"""
  m = getattr(f, '__module__', None)
  return isinstance(f, (type(len), type)) or m in ('builtins', 'math') or \
      type(f).__name__ in ('builtin_function_or_method', 'method_descriptor')


def make_builtins(it):
  b = {}
  for n in ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'bytes', 'slice',
            'zip', 'enumerate', 'reversed', 'sorted', 'map', 'filter', 'any',
            'all', 'object', 'repr', 'id', 'ord', 'chr', 'divmod', 'pow',
            'Ellipsis', 'NotImplemented', 'iter', 'next', 'hash', 'format',
            'complex', 'bin', 'hex', 'callable'):
    b[n] = getattr(builtins, n)
  for n in PYEXC | {'Exception', 'BaseException', 'Warning', 'UserWarning',
                    'DeprecationWarning'}:
    b[n] = getattr(builtins, n)

  def wrap_iter(n):
    f = getattr(builtins, n)

    def g(*a, **k):
      return f(*[it.iterate(x) if isinstance(x, IInstance) else x for x in a], **k)
    g.__name__ = n
    return g
  for n in ('zip', 'enumerate', 'reversed', 'sorted', 'any', 'all'):
    b[n] = wrap_iter(n)
  ismark = (bool, int, float)

  def _int(x=0, *a):
    if isinstance(x, S):
      if x.p.isint:
        return mk_scalar(x.p)
      return mk_scalar(tm.Trunc(x.p))
    if isinstance(x, T):
      p = py2poly(x)
      return mk_scalar(p if p.isint else tm.Trunc(p))
    return int(x, *a)

  def _float(x=0.0):
    if isinstance(x, S):
      return mk_scalar(x.p, isfloat=True)
    if isinstance(x, T):
      return mk_scalar(py2poly(x), isfloat=True)
    return float(x)

  def _bool(x=False):
    return it.truth(x)
  b['int'] = IntType('int', _int, int)
  b['float'] = IntType('float', _float, float)
  b['bool'] = IntType('bool', _bool, bool)

  def _len(x):
    if isinstance(x, T):
      if not x._dims:
        raise RepoError('TypeError', 'len() of a 0-d tensor')
      return mk_scalar(x._dims[0])
    return len(x)
  b['len'] = _len

  def _range(*a):
    xs = []
    for x in a:
      if isinstance(x, T):
        x = x.__index__()
      if isinstance(x, S):
        raise Unsupported('loop over a symbolic range')
      xs.append(x)
    return range(*xs)
  _range.__module__ = 'builtins'
  b['range'] = _range
  b['print'] = lambda *a, **k: None

  def minmax(name, fn):
    def f(*a, **k):
      xs = list(a[0]) if len(a) == 1 else list(a)
      if any(isinstance(x, (S, T)) for x in xs) and not k:
        r = py2poly(xs[0])
        for x in xs[1:]:
          r = tm.Fun(fn, r, py2poly(x))
        return mk_scalar(r)
      return getattr(builtins, name)(xs, **k)
    f.__module__ = 'builtins'
    return f
  b['min'] = minmax('min', 'min2')
  b['max'] = minmax('max', 'max2')

  def _sum(x, start=0):
    r = start
    for v in it.iterate(x):
      r = r + v
    return r
  b['sum'] = _sum

  def _abs(x):
    return abs(x)
  b['abs'] = _abs

  def _round(x, n=None):
    return round(x) if n is None else round(x, n)
  b['round'] = _round

  def _isinstance(x, c):
    if isinstance(c, tuple):
      return any(_isinstance(x, k) for k in c)
    if isinstance(c, IClass):
      return isinstance(x, IInstance) and c in x.cls.mro
    if isinstance(c, TypeTag):
      return c.pred(x)
    if isinstance(c, IntType):
      if isinstance(x, S):
        return c.name == ('bool' if x.isbool else 'int' if x.p.isint else 'float')
      return isinstance(x, c.t)
    if isinstance(c, Stub):
      if isinstance(x, IInstance) and c in x.cls.mro:
        return True
      if isinstance(x, Stub):
        raise Unsupported('isinstance of external')
      return False
    if isinstance(c, type):
      if isinstance(x, (IInstance, T, IFunction)):
        return c is object
      return isinstance(x, c)
    raise Unsupported('isinstance with %r' % (c,))
  b['isinstance'] = _isinstance

  def _issubclass(x, c):
    if isinstance(x, IClass):
      return c in x.mro
    return issubclass(x, c)
  b['issubclass'] = _issubclass

  def _type(x, *a):
    if a:
      raise Unsupported('type() with three arguments')
    if isinstance(x, IInstance):
      return x.cls
    if isinstance(x, T):
      return it.builtins['%ndarray' if x._isnp else '%Tensor']
    if isinstance(x, bool):
      return b['bool']
    if isinstance(x, S):
      return b['bool' if x.isbool else 'int' if x.p.isint else 'float']
    if isinstance(x, int):
      return b['int']
    if isinstance(x, float):
      return b['float']
    return type(x)
  b['type'] = _type

  def _hasattr(o, n):
    try:
      it.getattr(o, n)
      return True
    except RepoError:
      return False
  b['hasattr'] = _hasattr

  def _getattr(o, n, *d):
    try:
      return it.getattr(o, n)
    except RepoError as ex:
      if d and ex.kind == 'AttributeError':
        return d[0]
      raise
  b['getattr'] = _getattr
  b['setattr'] = lambda o, n, v: it.setattr(o, n, v)
  b['delattr'] = lambda o, n: o.d.pop(n)
  b['vars'] = lambda o: o.d
  b['staticmethod'] = StaticM
  b['classmethod'] = ClassM
  b['property'] = Prop

  def _super(cls, self_):
    return SuperObj(cls, self_)
  b['super'] = _super

  def _open(*a, **k):
    raise Unsupported('file access')
  b['open'] = _open
  b['input'] = _open
  b['__name__'] = '__ocnn__'
  return b


class IntType:
  """int/float/bool constructors that accept abstract scalars."""

  def __init__(self, name, f, t):
    self.name, self.f, self.t = name, f, t
    self.__module__ = 'builtins'

  def __call__(self, *a, **k):
    return self.f(*a, **k)

  def __eq__(self, o):
    return o is self or o is self.t

  def __hash__(self):
    return hash(self.t)

  def __repr__(self):
    return "<class '%s'>" % self.name


def set_interp(it):
  global IT
  IT = it
