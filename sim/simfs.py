"""An in-memory file system for the storage simulations.

One Store is the shared disk; every simulated process talks to it through its
own SimFS handle (a koladata FileSystemInterface).  Every call is a scheduling
point and a place where the fault plan may inject something:

  io-error       the call fails and nothing happened
  enospc         writes fail, possibly after part of the data was written
  torn-write     the writer dies while its file is only partly written
  close-error    the data was written in part, then closing the file fails
  lost-ack       a rename/remove/mkdir was applied, but reported as failed
  crash          the simulated process ends before or after the call
  slow           the call takes simulated time, so others overtake it
  stall          one process stops for a long time in the middle of a call

The durability model is: what a completed call wrote survives any process
crash (power loss of unsynced data is out of scope, nothing in the repository
calls fsync); file-to-file rename without overwrite is atomic, which is the
condition the storage documentation states for transactionality.
"""

import errno
import fnmatch
import io
import os

from sim import core

ERRNOS = [errno.EIO, errno.EACCES, errno.ETIMEDOUT, errno.EMFILE]


class Store:

  def __init__(self):
    self.files = {}
    self.dirs = {'/'}
    self.generation = 0
    self.writers = {}   # path -> handle still open for writing

  def clone(self):
    s = Store()
    s.files = dict(self.files)
    s.dirs = set(self.dirs)
    return s

  def parent(self, path):
    return os.path.dirname(path.rstrip('/')) or '/'

  def listing(self):
    return sorted(list(self.files) + [d + '/' for d in self.dirs])


class FaultPlan:
  """Swarm-chosen fault configuration of one simulated process."""

  def __init__(self, sim, *, kinds=(), p=0.0, crash_p=0.0, slow_p=0.0,
               visible_on_close=False):
    self.sim = sim
    self.kinds = list(kinds)
    self.p = p
    self.crash_p = crash_p
    self.slow_p = slow_p
    self.visible_on_close = visible_on_close
    self.enabled = True
    self.full = False      # disk full right now
    self.crash_at = None   # countdown in FS calls
    self.fail_at = None    # (countdown, kind): one targeted fault

  @classmethod
  def none(cls, sim):
    return cls(sim)

  def step(self, op):
    """Decides what happens at this call: None or a fault kind."""
    if not self.enabled:
      return None
    ch = self.sim.ch
    if self.crash_at is not None:
      self.crash_at -= 1
      if self.crash_at < 0:
        self.crash_at = None
        return 'crash'
    if self.fail_at is not None:
      n, kind = self.fail_at
      if n <= 0:
        self.fail_at = None
        return kind
      self.fail_at = (n - 1, kind)
    if self.crash_p and ch.chance(self.crash_p):
      return 'crash'
    if self.slow_p and ch.chance(self.slow_p):
      return 'slow'
    if self.p and self.kinds and ch.chance(self.p):
      return ch.choice(self.kinds)
    return None


class _Writer(io.RawIOBase):

  def __init__(self, fs, path, data=b''):
    super().__init__()
    self._fs = fs
    self._path = path
    self._data = bytearray(data)
    self._dead = False

  def writable(self):
    return True

  def write(self, b):
    b = bytes(b)
    if self._dead:
      raise ValueError('I/O operation on closed file')
    keep = self._fs._write_step(self._path, b)
    self._data += b[:keep] if keep is not None else b
    self._fs._publish(self._path, self._data, closed=False)
    if keep is not None:
      raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._path)
    return len(b)

  def close(self):
    if self.closed or self._dead:
      return
    self._dead = True
    super().close()
    self._fs._close_step(self._path, self._data)

  def __exit__(self, *a):
    self.close()

  def __del__(self):
    pass


class SimFS:
  """FileSystemInterface of one simulated process on the shared store."""

  def __init__(self, sim, store, plan=None, name='fs'):
    self.sim = sim
    self.store = store
    self.plan = plan or FaultPlan.none(sim)
    self.name = name
    self.calls = 0
    self.touched = set()

  def touched_under(self, d):
    return sorted(p for p in self.touched if p == d or p.startswith(d + '/'))

  # -- fault handling -------------------------------------------------------
  def _crash(self, why='crash'):
    self.sim.fault(why)
    t = core.current_task()
    if t.proc is None:
      raise core.HarnessError('crash of the harness process')
    self.sim.crash_proc(t.proc)
    raise core.HarnessError('unreachable')

  def _pre(self, op, path):
    """Returns 'after-*' faults to be applied once the call took effect."""
    self.calls += 1
    self.touched.add(path)
    sim = self.sim
    sim.log('fs', op, path)
    sim.yield_point()
    f = self.plan.step(op)
    if f is None:
      return None
    if f == 'crash':
      if sim.ch.chance(0.5) and op in ('rename', 'remove', 'mkdirs', 'open-w',
                                       'close'):
        return 'crash-after'
      self._crash()
    if f in ('slow', 'stall'):
      sim.fault(f)
      sim.sleep(0.01 + sim.ch.pick(1000) / 100.0
                if f == 'slow' else 60 + sim.ch.pick(600))
      return None
    if f == 'io-error':
      sim.fault(f)
      e = sim.ch.choice(ERRNOS)
      raise OSError(e, os.strerror(e), path)
    if f == 'enospc':
      if op == 'open-w' or op == 'mkdirs':
        sim.fault(f)
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
      return None
    if f == 'lost-ack' and op in ('rename', 'remove', 'mkdirs'):
      return 'lost-ack'
    return None

  def _post(self, after, path):
    if after == 'crash-after':
      self._crash('crash-after')
    if after == 'lost-ack':
      self.sim.fault('lost-ack')
      raise OSError(errno.ETIMEDOUT, os.strerror(errno.ETIMEDOUT), path)

  def _write_step(self, path, b):
    self.calls += 1
    self.sim.log('fs', 'write', path, len(b))
    self.sim.yield_point()
    f = self.plan.step('write')
    if f == 'crash':
      keep = self.sim.ch.pick(len(b) + 1)
      if not self.plan.visible_on_close:
        old = self.store.files.get(path, b'')
        self.store.files[path] = old + b[:keep]
      self._crash('torn-write')
    if f in ('slow', 'stall'):
      self.sim.fault(f)
      self.sim.sleep(0.5 + self.sim.ch.pick(100) / 10)
    if f in ('enospc', 'io-error'):
      self.sim.fault('enospc')
      return self.sim.ch.pick(len(b) + 1)
    return None

  def _publish(self, path, data, closed):
    if closed or not self.plan.visible_on_close:
      if path in self.store.files or closed:
        self.store.files[path] = bytes(data)

  def _close_step(self, path, data):
    after = None
    self.calls += 1
    self.sim.log('fs', 'close', path, len(data))
    self.sim.yield_point()
    f = self.plan.step('close')
    if f == 'crash':
      if self.sim.ch.chance(0.5):
        after = 'crash-after'
      else:
        self._crash('torn-write')
    if f in ('enospc', 'io-error', 'close-error'):
      self.sim.fault('close-error')
      if not self.plan.visible_on_close:
        self.store.files[path] = bytes(data)[:self.sim.ch.pick(len(data) + 1)]
      raise OSError(errno.EIO, os.strerror(errno.EIO), path)
    if f in ('slow', 'stall'):
      self.sim.fault(f)
      self.sim.sleep(0.5 + self.sim.ch.pick(100) / 10)
    self._publish(path, data, closed=True)
    self._post(after, path)

  # -- FileSystemInterface --------------------------------------------------
  def exists(self, filepath):
    p = _norm(filepath)
    self._pre('exists', p)
    return p in self.store.files or p in self.store.dirs

  def is_dir(self, filepath):
    p = _norm(filepath)
    self._pre('is_dir', p)
    return p in self.store.dirs

  def remove(self, filepath):
    p = _norm(filepath)
    after = self._pre('remove', p)
    if p not in self.store.files:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    del self.store.files[p]
    self._post(after, p)

  def make_dirs(self, dirpath):
    p = _norm(dirpath)
    after = self._pre('mkdirs', p)
    q = p
    while q not in self.store.dirs:
      if q in self.store.files:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), q)
      q = self.store.parent(q)
    q = p
    while q not in self.store.dirs:
      self.store.dirs.add(q)
      q = self.store.parent(q)
    self._post(after, p)

  def glob(self, pattern):
    p = _norm(pattern)
    self._pre('glob', p)
    base = os.path.dirname(p)
    if any(c in base for c in '*?['):
      cands = list(self.store.files) + list(self.store.dirs)
      depth = p.count('/')
      out = [c for c in cands if c.count('/') == depth
             and fnmatch.fnmatchcase(c, p)]
    else:
      last = os.path.basename(p)
      out = [c for c in list(self.store.files) + list(self.store.dirs)
             if os.path.dirname(c) == base and c != '/'
             and (last.startswith('.')
                  or not os.path.basename(c).startswith('.'))
             and fnmatch.fnmatchcase(os.path.basename(c), last)]
    out.sort()
    # The order of directory listings is unspecified.
    if len(out) > 1:
      k = self.sim.ch.pick(3)
      if k == 1:
        out.reverse()
      elif k == 2:
        i = self.sim.ch.pick(len(out))
        out = out[i:] + out[:i]
    return out

  def rename(self, oldpath, newpath, overwrite=False):
    a, b = _norm(oldpath), _norm(newpath)
    after = self._pre('rename', b)
    st = self.store
    if not overwrite and (b in st.files or b in st.dirs):
      raise ValueError(f'Destination {b} already exists.')
    if a in st.files:
      if b in st.dirs:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), b)
      if st.parent(b) not in st.dirs:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), b)
      st.files[b] = st.files.pop(a)
    elif a in st.dirs:
      for f in [f for f in st.files if f.startswith(a + '/')]:
        st.files[b + f[len(a):]] = st.files.pop(f)
      for d in [d for d in st.dirs if d == a or d.startswith(a + '/')]:
        st.dirs.discard(d)
        st.dirs.add(b + d[len(a):])
    else:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
    self._post(after, b)

  def open(self, filepath, mode='r'):
    p = _norm(filepath)
    text = 'b' not in mode
    m = mode.replace('b', '').replace('t', '')
    st = self.store
    if m == 'r':
      self._pre('open-r', p)
      if p in st.dirs:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
      if p not in st.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
      f = io.BytesIO(st.files[p])
      return io.TextIOWrapper(f, encoding='utf-8') if text else f
    if m not in ('w', 'x', 'a'):
      raise core.HarnessError(f'open mode {mode!r} is not simulated')
    after = self._pre('open-w', p)
    if p in st.dirs:
      raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
    if st.parent(p) not in st.dirs:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    if m == 'x' and p in st.files:
      raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
    data = st.files.get(p, b'') if m == 'a' else b''
    if not self.plan.visible_on_close:
      st.files[p] = data
    self._post(after, p)
    w = _Writer(self, p, data)
    return io.TextIOWrapper(w, encoding='utf-8', write_through=True) \
        if text else w


def _norm(p):
  return os.path.normpath(os.fspath(p))


KINDS = ['io-error', 'enospc', 'close-error', 'lost-ack', 'slow']


def swarm_plan(sim, *, crash=True, errors=True, slow=True, kinds=None):
  """A random fault configuration (drawn from the choice stream)."""
  ch = sim.ch
  style = ch.pick(4)
  kw = dict(visible_on_close=ch.chance(0.3))
  plan = FaultPlan(sim, **kw)
  kinds = list(kinds or KINDS)
  if style == 0:
    return plan
  if style == 1 and crash:
    plan.crash_at = ch.pick(40)
  elif style == 2 and errors:
    plan.kinds = [ch.choice(kinds)]
    plan.p = ch.choice([0.05, 0.02, 0.15, 0.4])
  elif errors:
    plan.fail_at = (ch.pick(40), ch.choice(kinds))
  if slow and ch.chance(0.3):
    plan.slow_p = 0.05
  return plan


# Make isinstance checks against the interface succeed.
def register():
  from koladata.file_io import fs_interface

  class _SimFS(SimFS, fs_interface.FileSystemInterface):
    pass
  return _SimFS
