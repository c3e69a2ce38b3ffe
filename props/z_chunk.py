"""P09: gradients computed in pieces are those of the definition as well."""
from .common import *
from . import REG

for _o in list(REG.get('P10', ())):
  if 'buffer' in _o.name:
    ob('P09', 'gradients ' + _o.name, _o.tier, _o.timeout, _o.paths)(_o.fn)
