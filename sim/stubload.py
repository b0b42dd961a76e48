"""Loads one module of the repository with stand-ins for what it imports."""

import importlib.util
import sys
import types as pytypes


class Anything:
  """Stands for what is only mentioned in declarations (types, constraints)."""

  def __getattr__(self, name):
    if name.startswith('__') and name.endswith('__'):
      raise AttributeError(name)
    return Anything()

  def __call__(self, *a, **k):
    return Anything()

  def _op(self, *a):
    return Anything()

  __eq__ = __ne__ = __or__ = __ror__ = __and__ = __rand__ = __invert__ = _op
  __getitem__ = _op
  __hash__ = object.__hash__


def module(name, **kw):
  m = pytypes.ModuleType(name)
  m.__dict__.update(kw)
  m.__getattr__ = lambda n: Anything()
  return m


def load(path, name, stubs):
  """Executes the file while sys.modules holds the given stubs."""
  names = dict(stubs)
  saved = {n: sys.modules.get(n) for n in names}
  attrs = []
  sys.modules.update(names)
  for n, m in names.items():
    parent, _, leaf = n.rpartition('.')
    if parent and parent not in names:
      p = importlib.import_module(parent)
      attrs.append((p, leaf, getattr(p, leaf, None)))
      setattr(p, leaf, m)
  try:
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
  finally:
    for n, m in saved.items():
      if m is None:
        sys.modules.pop(n, None)
      else:
        sys.modules[n] = m
    for p, leaf, old in attrs:
      if old is not None:
        setattr(p, leaf, old)
  return mod
