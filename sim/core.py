"""Deterministic simulator core.

One run is a pure function of (code under test, choice stream).  The choice
stream is produced by one PRNG while exploring and by a recorded list of ints
while replaying; value 0 always means "the boring alternative" (no preemption,
no fault, first option), which is what makes generic minimisation work.

Threads of the system under test are real OS threads, but exactly one of them
is released at any time (a baton); who runs next is a draw from the choice
stream.  Preemption points are: every simulated blocking primitive, every
simulated I/O call, and (optionally) every bytecode of the traced source roots.
"""

import _thread
import dis
import os
import random
import sys
import threading

# Real primitives, saved before seams.install() replaces the public names.
real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
real_get_ident = _thread.get_ident


# Kinds of the findings listed for the property being checked.
KNOWN = set()


class Violation(Exception):
  """The property under test does not hold in this run."""

  def __init__(self, kind, message):
    super().__init__(f'{kind}: {message}')
    self.kind = kind
    self.message = message


class HarnessError(Exception):
  """The simulator itself could not give an answer."""


class StepLimit(Exception):
  pass


class Choices:
  """The single source of nondeterminism of a run."""

  def __init__(self, seed=None, recorded=None):
    self.recorded = recorded
    self.rng = random.Random(seed) if recorded is None else None
    self.log = []
    self.pos = 0
    self.digest = 0

  def draw(self, gen):
    """Next choice; `gen(rng)` is only consulted while exploring."""
    if self.recorded is not None:
      v = self.recorded[self.pos] if self.pos < len(self.recorded) else 0
      self.pos += 1
    else:
      v = gen(self.rng)
    self.log.append(v)
    return v

  def pick(self, n):
    """Uniform in range(n)."""
    if n <= 1:
      return 0
    return self.draw(lambda r: r.randrange(n)) % n

  def chance(self, p):
    return bool(self.draw(lambda r: 1 if r.random() < p else 0))

  def choice(self, seq):
    return seq[self.pick(len(seq))]

  def weighted(self, weights):
    """Index into weights; index 0 is the shrink target."""
    def gen(r):
      x = r.random() * sum(weights)
      for i, w in enumerate(weights):
        x -= w
        if x < 0:
          return i
      return len(weights) - 1
    return self.draw(gen) % len(weights)

  def int_between(self, lo, hi):
    return lo + self.pick(hi - lo + 1)

  def sub_seed(self):
    return self.draw(lambda r: r.randrange(1 << 30))


RUNNABLE, BLOCKED, DONE, CRASHED = 'runnable', 'blocked', 'done', 'crashed'


class Task:
  __slots__ = (
      'id', 'name', 'proc', 'state', 'gate', 'exc', 'result', 'fn', 'wait',
      'wake_at', 'timed_out', 'gap', 'ident', 'trace', 'pending_exc', 'held',
  )

  def __init__(self, tid, name, fn, proc, trace):
    self.id = tid
    self.name = name
    self.fn = fn
    self.proc = proc
    self.state = RUNNABLE
    self.gate = real_allocate_lock()
    self.gate.acquire()
    self.exc = None
    self.result = None
    self.wait = None
    self.wake_at = None
    self.timed_out = False
    self.gap = 0
    self.ident = None
    self.trace = trace
    self.pending_exc = None
    self.held = []  # simulated locks owned by this task


# CPython 3.12 only delivers opcode events to sys.settrace() calls made after
# some frame asked for them; ask once, up front, so that every run is alike.
sys._getframe().f_trace_opcodes = True

DEBUG = False
_CURRENT = None  # The Sim that is running in this process, if any.
_TASK_BY_IDENT = {}


def current_sim():
  return _CURRENT


def current_task():
  return _TASK_BY_IDENT.get(real_get_ident())


class Sim:
  """One simulated execution."""

  def __init__(self, choices, *, step_limit=200_000, trace_roots=(),
               wall_limit=60.0):
    self.ch = choices
    self.tasks = []
    self.current = None
    self.now = 1_700_000_000.0
    self.steps = 0
    self.switches = 0
    self.step_limit = step_limit
    self.trace_roots = tuple(trace_roots)
    self.wall_limit = wall_limit
    self.done = real_allocate_lock()
    self.done.acquire()
    self.failure = None
    self.finished = False
    self.events = []
    self.stats = {}
    self.faults = {}
    self.probes = {}
    self.gap_mode = None
    self.uid = 0
    self.schedule_sig = 0
    self.deadlock_ok = False
    self._file_cache = {}
    self._intr_cache = {}
    self.uuid_clash = 0
    self.uuid_pool = []

  # -- recording ----------------------------------------------------------
  def log(self, *event):
    t = self.current
    self.events.append((self.steps, t.name if t else '-') + event)

  def fault(self, kind):
    self.faults[kind] = self.faults.get(kind, 0) + 1
    self.log('FAULT', kind)

  def known(self, kind, message):
    """A failure that known_findings.json lists is noted, any other raised."""
    if kind not in KNOWN:
      raise Violation(kind, message)
    self.probe('known:' + kind)
    self.log('KNOWN', kind, message)

  def probe(self, name):
    self.probes[name] = self.probes.get(name, 0) + 1

  def seq(self):
    self.uid += 1
    return self.uid

  # -- lifecycle ----------------------------------------------------------
  def choose_gap_mode(self):
    """Swarm: how eagerly this run preempts."""
    self.gap_mode = self.ch.choice(
        ['none', 'rare', 'coarse', 'medium', 'fine', 'burst'])

  def _draw_gap(self):
    m = self.gap_mode
    if m is None or m == 'none':
      return 0
    if m == 'rare':
      return self.ch.draw(
          lambda r: 0 if r.random() < 0.6 else r.randrange(1, 600))
    if m == 'coarse':
      return self.ch.draw(lambda r: 1 + int(r.expovariate(1 / 120)))
    if m == 'medium':
      return self.ch.draw(lambda r: 1 + int(r.expovariate(1 / 30)))
    if m == 'fine':
      return self.ch.draw(lambda r: 1 + int(r.expovariate(1 / 6)))
    return self.ch.draw(
        lambda r: r.randrange(1, 4) if r.random() < 0.4 else r.randrange(20, 400))

  def spawn(self, fn, name=None, proc=None, trace=True):
    cur = current_task()
    if proc is None and cur is not None:
      proc = cur.proc
    t = Task(len(self.tasks), name or f't{len(self.tasks)}', fn, proc, trace)
    self.tasks.append(t)
    started = real_allocate_lock()
    started.acquire()

    def body():
      t.ident = real_get_ident()
      _TASK_BY_IDENT[t.ident] = t
      # OS thread idents are reused unpredictably; a stale threading object
      # under this ident must not be found.
      threading._active.pop(t.ident, None)
      started.release()
      t.gate.acquire()
      if t.state == CRASHED or self.finished:
        self._park_forever(t)
      if t.trace and self.trace_roots:
        sys.settrace(self._trace_call)
      try:
        t.result = t.fn()
      except BaseException as e:  # pylint: disable=broad-except
        t.exc = e
      sys.settrace(None)
      self._task_exit(t)

    real_start_new_thread(body, ())
    started.acquire()
    return t

  def _task_exit(self, t):
    if t.state != CRASHED:
      t.state = DONE
    self.log('exit', type(t.exc).__name__ if t.exc else 'ok')
    for o in self.tasks:
      if o.state == BLOCKED and o.wait is t:
        self._wake(o)
    if isinstance(t.exc, (Violation, HarnessError, StepLimit)):
      self._finish(t.exc)
    elif t.id == 0:
      self._finish(t.exc)
    else:
      self._dispatch(exiting=True)

  def _finish(self, exc):
    if not self.finished:
      self.finished = True
      self.failure = exc
      self.done.release()

  def run(self, main, name='main', trace=False):
    """Runs main() as task 0; returns when it returns."""
    global _CURRENT
    assert _CURRENT is None
    _CURRENT = self
    try:
      t = self.spawn(main, name=name, trace=trace)
      self.current = t
      t.gap = self._draw_gap()
      t.gate.release()
      if not self.done.acquire(timeout=self.wall_limit):
        raise HarnessError(
            f'wall limit; current={self.current.name} steps={self.steps}')
    finally:
      _CURRENT = None
    if self.failure is not None:
      raise self.failure
    return self.tasks[0].result

  # -- scheduling ---------------------------------------------------------
  def _runnable(self):
    return [t for t in self.tasks if t.state == RUNNABLE]

  def _wake(self, t):
    t.state = RUNNABLE
    t.wait = None
    t.wake_at = None

  def _pick_next(self, exclude=None):
    while True:
      ts = self._runnable()
      if exclude is not None and len(ts) > 1:
        ts = [t for t in ts if t is not exclude]
      if ts:
        return ts[self.ch.pick(len(ts))]
      timers = [t for t in self.tasks if t.state == BLOCKED
                and t.wake_at is not None]
      if not timers:
        return None
      first = min(t.wake_at for t in timers)
      self.now = max(self.now, first)
      for t in timers:
        if t.wake_at <= self.now:
          t.timed_out = True
          self._wake(t)

  def _dispatch(self, exiting=False, exclude=None):
    """Called by the thread that holds the baton: hands it to someone."""
    me = self.current
    nxt = self._pick_next(exclude)
    if nxt is None:
      names = [(t.name, str(t.wait)) for t in self.tasks if t.state == BLOCKED]
      self._finish(Violation(
          'deadlock', f'no runnable task; blocked: {names}'))
      self._park_forever(me)
      return
    if nxt is not me:
      self.switches += 1
      self.schedule_sig = (self.schedule_sig * 1000003
                           + nxt.id * 31 + (self.steps & 1023)) & 0xFFFFFFFFFFFF
    self.current = nxt
    nxt.gap = self._draw_gap()
    if nxt is me and not exiting:
      return
    nxt.gate.release()
    if not exiting:
      me.gate.acquire()
      if me.state == CRASHED or self.finished:
        self._park_forever(me)

  def _park_forever(self, t):
    # No sys.settrace() here: the baton is gone already.
    lock = real_allocate_lock()
    lock.acquire()
    lock.acquire()  # Never returns; the process is discarded after the run.

  def _count_step(self):
    self.steps += 1
    if DEBUG and current_task() is not self.current:
      import traceback
      traceback.print_stack()
    if self.steps > self.step_limit:
      e = StepLimit(f'{self.steps} steps')
      self._finish(e)
      self._park_forever(self.current)

  def maybe_preempt(self):
    """A preemption point inside code."""
    t = self.current
    self._count_step()
    if t.gap:
      t.gap -= 1
      if t.gap == 0:
        self._dispatch(exclude=t)

  def yield_point(self):
    """A scheduling point at an I/O or API boundary: anyone may run next."""
    self._count_step()
    if self.gap_mode in (None, 'none'):
      if self.ch.chance(0.25):
        self._dispatch(exclude=self.current)
      return
    self.maybe_preempt()
    if self.ch.chance(0.3):
      self._dispatch(exclude=self.current)

  def switch(self):
    self._count_step()
    self._dispatch()

  def block(self, what, timeout=None):
    """Parks the current task until someone wakes it; True if timed out."""
    t = self.current
    self._count_step()
    t.state = BLOCKED
    t.wait = what
    t.timed_out = False
    t.wake_at = None if timeout is None else self.now + max(timeout, 0)
    self._dispatch()
    return t.timed_out

  def wake_waiters(self, what):
    for t in self.tasks:
      if t.state == BLOCKED and t.wait is what:
        self._wake(t)

  def join(self, t, timeout=None):
    deadline = None if timeout is None else self.now + timeout
    while t.state not in (DONE, CRASHED):
      left = None if deadline is None else deadline - self.now
      if left is not None and left <= 0:
        return False
      self.block(t, left)
    return True

  def sleep(self, secs):
    self.block(object(), max(secs, 1e-6))

  def crash_proc(self, proc):
    """Kills every task of a simulated process; nothing of it runs again."""
    me = self.current
    for t in self.tasks:
      if t.proc is proc and t.state in (RUNNABLE, BLOCKED):
        t.state = CRASHED
        for o in self.tasks:
          if o.state == BLOCKED and o.wait is t:
            self._wake(o)
        # A real process has its own copy of every in-process lock, so the
        # locks of the dead one are not held as far as the others can tell.
        for lock in list(t.held):
          lock.abandon()
          self.wake_waiters(lock)
        t.held = []
    if me.state == CRASHED:
      self._dispatch(exiting=True)
      self._park_forever(me)

  # -- bytecode level preemption -----------------------------------------
  def _wants(self, filename):
    r = self._file_cache.get(filename)
    if r is None:
      r = filename.startswith(self.trace_roots)
      self._file_cache[filename] = r
    return r

  def _trace_call(self, frame, event, arg):
    if event != 'call' or not self._wants(frame.f_code.co_filename):
      return None
    frame.f_trace_opcodes = True
    frame.f_trace_lines = False
    return self._trace_local

  def _trace_local(self, frame, event, arg):
    if event == 'opcode':
      t = self.current
      self.steps += 1
      if self.steps > self.step_limit:
        self._count_step()
      if t.pending_exc is not None and self.interruptible(frame):
        e, t.pending_exc = t.pending_exc, None
        # Raising unsets this thread's trace function, and CPython 3.12 then
        # calls a null pointer at the next opcode event while other threads
        # are still being traced: no more opcode events for these frames.
        f = frame
        while f is not None:
          if f.f_trace_opcodes:
            f.f_trace_opcodes = False
          f = f.f_back
        raise e
      if t.gap:
        t.gap -= 1
        if t.gap == 0:
          self._dispatch(exclude=t)
    return self._trace_local

  def interruptible(self, frame):
    """Whether the interpreter itself could raise a KeyboardInterrupt here.

    CPython delivers asynchronous exceptions at function entry, after a call
    returns and at a backward jump, nowhere else; raising from the trace
    function at other instructions can even crash the interpreter.
    """
    code = frame.f_code
    offs = self._intr_cache.get(code)
    if offs is None:
      offs = set()
      after_call = False
      for ins in dis.get_instructions(code):
        if after_call or ins.opname in ('RESUME', 'JUMP_BACKWARD'):
          offs.add(ins.offset)
        after_call = ins.opname in ('CALL', 'CALL_FUNCTION_EX')
      self._intr_cache[code] = offs
    return frame.f_lasti in offs


def spawn_all(sim, fns, procs=None, trace=True):
  ts = []
  for i, (name, fn) in enumerate(fns):
    ts.append(sim.spawn(fn, name=name, proc=procs[i] if procs else None,
                        trace=trace))
  for t in ts:
    sim.join(t)
  for t in ts:
    if t.exc is not None:
      raise t.exc
  return ts
