"""Brings the real storage layer up inside the simulator."""

from sim import core
from sim import minikd
from sim import simfs


class ProcCache:
  """Stands where the process-global cache stands: one real cache per process.

  Simulated processes live in one interpreter; each gets its own real
  LruSizeTrackingCache, as separate OS processes would.
  """

  def __init__(self, make):
    object.__setattr__(self, '_make', make)
    object.__setattr__(self, '_caches', {})

  def _cur(self):
    t = core.current_task()
    proc = t.proc if t is not None else None
    c = self._caches.get(proc)
    if c is None:
      c = self._caches[proc] = self._make()
    return c

  def __getattr__(self, name):
    return getattr(self._cur(), name)

  def reset(self, proc):
    self._caches.pop(proc, None)


class Env:
  pass


def setup():
  """Imports everything; call once per interpreter, before the first run."""
  minikd.install()
  e = Env()
  from koladata import kd
  from koladata.ext.storage import global_cache_lib as gcl
  real = gcl._CACHE
  mk = type(real)
  e.cache = ProcCache(
      lambda: mk(max_total_bytes_of_entries_in_cache=1 << 30))
  gcl._CACHE = e.cache
  from koladata.ext.storage import data_bag_manager as dbm
  from koladata.ext.storage import data_slice_manager as dsm
  from koladata.ext.storage import data_slice_path as dsp
  from koladata.ext.storage import bare_root_initial_data_manager as bare
  from koladata.ext.storage import composite_initial_data_manager as comp
  from google.protobuf import any_pb2
  e.kd, e.dbm, e.dsm, e.dsp, e.bare, e.comp = kd, dbm, dsm, dsp, bare, comp
  e.any_pb2 = any_pb2
  e.SimFS = simfs.register()
  return e


def fresh_proc(env, sim, name, cache_bytes=None):
  """A simulated process: (proc token, its cache configured)."""
  proc = f'{name}'
  env.cache.reset(proc)
  return proc


def bag_facts(b):
  """Canonical content of a mini-kd bag."""
  return b.contents()
