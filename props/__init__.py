"""Property obligations.  Each module registers obligations with `ob`."""
REG = {}       # property id -> list of Obligation


class Obligation:

  def __init__(self, pid, name, fn, tier, timeout, paths):
    self.pid, self.name, self.fn, self.tier = pid, name, fn, tier
    self.timeout, self.paths = timeout, paths


def ob(pid, name, tier='quick', timeout=150, paths=64):
  """Registers an obligation (a callable without arguments)."""
  def deco(fn):
    REG.setdefault(pid, []).append(Obligation(pid, name, fn, tier, timeout, paths))
    return fn
  return deco


def load():
  import importlib
  import os
  here = os.path.dirname(os.path.abspath(__file__))
  for f in sorted(os.listdir(here)):
    if f.endswith('.py') and f != '__init__.py':
      importlib.import_module('props.' + f[:-3])
  return REG
