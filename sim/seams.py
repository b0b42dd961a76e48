"""Process-wide seams: threads, locks, clocks, randomness, uuids.

install() must run before anything of the repository is imported, so that
`from threading import Lock`, `from time import time`, ... all resolve to the
simulated version.  Outside a simulated run the replacements behave like
uncontended / constant versions of the originals.
"""

import _thread
import datetime
import os
import random
import sys
import threading
import time
import uuid

from sim import core

_real = {}


class SimLock:
  """Non-reentrant lock decided by the simulator."""

  def __init__(self):
    self._owner = None
    self._locked = False

  def acquire(self, blocking=True, timeout=-1):
    sim = core.current_sim()
    t = core.current_task()
    if sim is None or t is None:
      if self._locked:
        if not blocking:
          return False
        raise core.HarnessError('contended lock outside the simulation')
      self._locked = True
      return True
    sim.maybe_preempt()
    deadline = None
    if timeout is not None and timeout >= 0:
      deadline = sim.now + timeout
    while self._locked:
      if not blocking:
        return False
      left = None if deadline is None else deadline - sim.now
      if left is not None and left <= 0:
        return False
      sim.block(self, left)
    self._locked = True
    self._owner = t
    t.held.append(self)
    return True

  def abandon(self):
    self._locked = False
    self._owner = None

  def release(self):
    if not self._locked:
      raise RuntimeError('release unlocked lock')
    self._locked = False
    if self._owner is not None and self in self._owner.held:
      self._owner.held.remove(self)
    self._owner = None
    sim = core.current_sim()
    if sim is not None and core.current_task() is not None:
      sim.wake_waiters(self)
      sim.maybe_preempt()

  def locked(self):
    return self._locked

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._locked = False

  acquire_lock = acquire
  release_lock = release

  def __repr__(self):
    return f'<SimLock owner={self._owner and self._owner.name}>'


class SimRLock:

  def __init__(self):
    self._owner = None
    self._count = 0

  def _me(self):
    t = core.current_task()
    return t if t is not None else core.real_get_ident()

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if self._count and self._owner is me or (
        self._count and self._owner == me):
      self._count += 1
      return True
    sim = core.current_sim()
    if sim is None or core.current_task() is None:
      if self._count:
        if not blocking:
          return False
        raise core.HarnessError('contended rlock outside the simulation')
      self._owner, self._count = me, 1
      return True
    sim.maybe_preempt()
    deadline = None
    if timeout is not None and timeout >= 0:
      deadline = sim.now + timeout
    while self._count:
      if not blocking:
        return False
      left = None if deadline is None else deadline - sim.now
      if left is not None and left <= 0:
        return False
      sim.block(self, left)
    self._owner, self._count = me, 1
    me.held.append(self)
    return True

  def abandon(self):
    self._owner, self._count = None, 0

  def _drop(self):
    held = getattr(self._owner, 'held', None)
    if held and self in held:
      held.remove(self)

  def release(self):
    if not self._count or self._owner != self._me():
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if not self._count:
      self._drop()
      self._owner = None
      sim = core.current_sim()
      if sim is not None and core.current_task() is not None:
        sim.wake_waiters(self)
        sim.maybe_preempt()

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  # Condition support.
  def _is_owned(self):
    return bool(self._count) and self._owner == self._me()

  def _release_save(self):
    st = (self._count, self._owner)
    self._drop()
    self._count = 0
    self._owner = None
    sim = core.current_sim()
    if sim is not None and core.current_task() is not None:
      sim.wake_waiters(self)
    return st

  def _acquire_restore(self, st):
    self.acquire()
    self._count, self._owner = st

  def _at_fork_reinit(self):
    self._owner, self._count = None, 0

  def __repr__(self):
    return f'<SimRLock owner={getattr(self._owner, "name", self._owner)}>'


def _now():
  sim = core.current_sim()
  if sim is None:
    return 1_700_000_000.0
  # Reading the clock takes a little simulated time, so it is strictly
  # increasing within a run, as real clocks practically are.
  sim.now += 1e-6
  return sim.now


def _sleep(secs):
  sim = core.current_sim()
  if sim is not None and core.current_task() is not None:
    sim.sleep(secs)


def _uuid_int():
  sim = core.current_sim()
  if sim is None:
    _uuid_int.n += 1
    return (0xABCDEF << 96) | _uuid_int.n
  n = sim.seq()
  # Scrambled so that lexical order does not follow creation order.
  x = (n * 0x9E3779B97F4A7C15F39CC0605CEDC835) & ((1 << 128) - 1)
  return x


_uuid_int.n = 0


def _uuid4():
  return uuid.UUID(int=_uuid_int(), version=4)


def _uuid1(node=None, clock_seq=None):
  u = uuid.UUID(int=_uuid_int(), version=1)
  sim = core.current_sim()
  if sim is not None and sim.uuid_clash:
    # Distinct uuids whose two halves have the same exclusive or: shortened
    # identifiers made from them collide.
    if sim.uuid_pool and sim.ch.chance(sim.uuid_clash):
      base = sim.uuid_pool[sim.ch.pick(len(sim.uuid_pool))]
      d = ((u.int >> 64) ^ (base >> 64)) & 0x3FFFFFFFFFFF0FFF
      u = uuid.UUID(int=base ^ (d << 64) ^ d)
      sim.fault('uuid-short-form-collision')
    elif len(sim.uuid_pool) < 2:
      sim.uuid_pool.append(u.int)
  return u


def _urandom(n):
  sim = core.current_sim()
  if sim is None:
    return _real['urandom'](n)
  return b''.join(
      (_uuid_int() & ((1 << 128) - 1)).to_bytes(16, 'big')
      for _ in range((n + 15) // 16))[:n]


class _FakeDatetime(datetime.datetime):

  @classmethod
  def now(cls, tz=None):
    return datetime.datetime.fromtimestamp(_now(), tz)

  @classmethod
  def utcnow(cls):
    return datetime.datetime.fromtimestamp(
        _now(), datetime.timezone.utc).replace(tzinfo=None)


_thread_start = threading.Thread.start
_thread_join = threading.Thread.join
_thread_alive = threading.Thread.is_alive


def _start(self):
  sim = core.current_sim()
  if sim is None or core.current_task() is None:
    raise core.HarnessError('thread started outside the simulation')
  if self._started.is_set():
    raise RuntimeError('threads can only be started once')

  def body():
    ident = core.real_get_ident()
    self._ident = ident
    threading._active[ident] = self
    self._started.set()
    try:
      self.run()
    except SystemExit:
      pass
    except Exception as e:  # pylint: disable=broad-except
      self._sim_uncaught = e
    finally:
      self._is_stopped = True
      threading._active.pop(ident, None)

  self._sim_task = sim.spawn(body, name=f'thr{len(sim.tasks)}')
  sim.yield_point()


def _join(self, timeout=None):
  sim = core.current_sim()
  t = getattr(self, '_sim_task', None)
  if t is None:
    if sim is None:
      return
    raise RuntimeError('cannot join thread before it is started')
  if sim is None:
    return
  sim.join(t, timeout)


def _is_alive(self):
  t = getattr(self, '_sim_task', None)
  if t is None:
    return False
  return t.state not in (core.DONE, core.CRASHED)


def _serial_hash(self):
  # Default hashes are addresses; iteration order of sets of threads or futures
  # (ThreadPoolExecutor has both) must not depend on them.
  d = self.__dict__
  n = d.get('_sim_serial')
  if n is None:
    _serial_hash.n += 1
    n = d['_sim_serial'] = _serial_hash.n
  return n


_serial_hash.n = 0


def install():
  """Replaces the public nondeterminism of the process, once."""
  if _real:
    return
  _real['urandom'] = os.urandom
  _real['time'] = time.time
  _real['monotonic'] = time.monotonic
  _real['sleep'] = time.sleep
  threading.Lock = SimLock
  threading._allocate_lock = SimLock
  threading.RLock = SimRLock
  threading._RLock = SimRLock
  threading._CRLock = SimRLock
  _thread.allocate_lock = SimLock
  threading.Thread.start = _start
  threading.Thread.join = _join
  threading.Thread.is_alive = _is_alive
  threading.Thread.__hash__ = _serial_hash
  import concurrent.futures
  concurrent.futures.Future.__hash__ = _serial_hash
  threading._time = _now
  time.time = _now
  time.monotonic = _now
  time.perf_counter = _now
  time.time_ns = lambda: int(_now() * 1e9)
  time.monotonic_ns = lambda: int(_now() * 1e9)
  time.perf_counter_ns = lambda: int(_now() * 1e9)
  time.sleep = _sleep
  uuid.uuid4 = _uuid4
  uuid.uuid1 = _uuid1
  os.urandom = _urandom
  datetime.datetime = _FakeDatetime
  import queue
  queue.SimpleQueue = queue._PySimpleQueue
  # `queue` was possibly imported before; rebind its primitives too.
  queue.threading = threading
  queue.time = _now


def real_monotonic():
  return (_real.get('monotonic') or time.monotonic)()


def reset_per_run(seed):
  random.seed(seed)
