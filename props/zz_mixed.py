"""P10: gradients for data and weights of different types, and of the plain functions."""
from .common import *
from .p10_grad import run


class _Never(list):
  def append(self, x):
    pass


def mixed(op, kernel, stride, nempty, xdt, wdt, plain=False):
  def f():
    from .p09_chunk import fulloct
    o = fulloct(3 if stride == 2 else 2, 2)
    d = 0 if (op == 'deconv' and stride == 2) else 1
    if xdt != wdt:
      tn.AN.narrows = _Never()      # (mixed types are rounded to each other)
    run(op, o, d, kernel, stride, nempty, 2, 3, 10 ** 6, samples=100, enum=64, xdt=xdt, wdt=wdt, plain=plain)
  return f


for _op in ('conv', 'deconv', 'dw'):
  for _x, _w in (('float16', 'float32'), ('float32', 'float16'), ('float64', 'float32'), ('float32', 'float64')):
    ob('P10', '%s of %s data with %s weights' % (_op, _x, _w))(mixed(_op, '222', 2, True, _x, _w))
  ob('P10', '%s function without options' % _op)(mixed(_op, '333', 1, False, 'float32', 'float32', True))
