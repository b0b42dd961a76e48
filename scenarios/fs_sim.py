"""FileSystemInteraction on a scratch directory, with crashes and errors."""

import errno
import os
import shutil
import sys
import tempfile
import threading

from sim import core
from sim import lincheck
from sim import oslevel
from sim.scenario import Scenario

_STD = os.path.dirname(os.__file__)
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS]


class FsSim(Scenario):
  trace_roots = ('/repo/py/', _STD + '/shutil.py', _STD + '/pathlib.py')
  step_limit = 100_000
  step_limit_is_violation = True

  def setup(self):
    from koladata.file_io import fs_implementation
    self.fi = fs_implementation
    self.base = tempfile.mkdtemp(prefix='vp-fs-')
    self.owner = os.getpid()
    oslevel.install()
    import atexit
    atexit.register(self.cleanup)

  def cleanup(self):
    if os.getpid() == self.owner:
      shutil.rmtree(self.base, ignore_errors=True)

  def after_run(self, pid):
    shutil.rmtree(os.path.join(self.base, str(pid)), ignore_errors=True)

  # -- helpers outside the simulated fault policy ---------------------------
  def raw_write(self, path, data):
    p = oslevel._policy
    oslevel.set_policy(None)
    try:
      with open(path, 'wb') as f:
        f.write(data)
    finally:
      oslevel.set_policy(p)

  def raw_read(self, path):
    p = oslevel._policy
    oslevel.set_policy(None)
    try:
      with open(path, 'rb') as f:
        return f.read()
    except FileNotFoundError:
      return None
    except IsADirectoryError:
      return 'DIR'
    finally:
      oslevel.set_policy(p)

  def run(self, sim):
    ch = sim.ch
    root = os.path.join(self.base, str(os.getpid()))
    os.makedirs(root)
    kind = ch.choice(['publish', 'refuse', 'claim', 'dirs', 'faulty'])
    faults = ch.chance(0.5) or kind == 'faulty'
    crash_on = ch.chance(0.4)
    p_err = ch.choice([0.1, 0.3]) if faults and kind in (
        'publish', 'refuse', 'faulty', 'claim') else 0.0

    def policy(event, args):
      path = args[0] if args else None
      if isinstance(path, int) or not str(path).startswith(root):
        return
      oslevel.set_policy(None)
      try:
        sim.log('io', event, str(path)[len(root):])
        sim.yield_point_io()
        t = core.current_task()
        if (crash_on and t.proc is not None and t.proc != 'checker'
            and ch.chance(0.08)):
          sim.fault('crash')
          oslevel.set_policy(policy)
          sim.crash_proc(t.proc)
        if (p_err and t.proc is not None and t.proc != 'checker'
            and ch.chance(p_err)):
          e = ch.choice(ERRNOS)
          sim.fault('io-error')
          raise OSError(e, os.strerror(e), str(path))
      finally:
        oslevel.set_policy(policy)

    def yp():
      # The policy is per process; restore it around the switch.
      oslevel.set_policy(policy)
      sim.yield_point()
    sim.yield_point_io = yp
    oslevel.set_policy(policy)
    try:
      getattr(self, 'w_' + kind)(sim, root)
    finally:
      oslevel.set_policy(None)

  # -- workloads -------------------------------------------------------------
  def w_publish(self, sim, root):
    """Replacing rename = atomic register: readers see whole versions only."""
    ch = sim.ch
    fs = self.fi.FileSystemInteraction()
    dst = f'{root}/pub'
    size = ch.choice([1, 100, 70_000])
    hist = []
    existed = ch.chance(0.6)
    init = 'v0' if existed else None
    if existed:
      self.raw_write(dst, b'v0' * size)

    def writer(i):
      def body():
        for k in range(1 + ch.pick(2)):
          val = f'w{i}.{k}'
          src = f'{root}/tmp-{i}-{k}'
          self.raw_write(src, val.encode() * size)
          inv = sim.seq()
          rec = [inv, None, ('w', val), None]
          hist.append(rec)
          sim.log('rename', val)
          try:
            fs.rename(src, dst, overwrite=True)
          except OSError as e:
            sim.log('rename-failed', val, e.errno)
            if self.raw_read(src) != val.encode() * size:
              # Failed, yet applied: allowed only if it is at the target.
              sim.probe('failed-but-moved')
            else:
              hist.remove(rec)
            continue
          rec[1] = sim.seq()
          sim.log('renamed', val)
          if fs.exists(src):
            raise core.Violation('source-left', f'{src} exists after rename')
      return body

    def reader(i):
      def body():
        for _ in range(1 + ch.pick(4)):
          inv = sim.seq()
          data = None
          try:
            with fs.open(dst, 'rb') as f:
              sim.yield_point()
              data = f.read()
          except FileNotFoundError:
            data = None
          except OSError:
            continue
          ret = sim.seq()
          if data is None:
            got = None
          else:
            got = data[:max(2, len(data) // size)].decode(errors='replace')
            if len(data) % size or data != got.encode() * size or not got:
              raise core.Violation(
                  'torn-read',
                  f'reader saw {len(data)} bytes starting {data[:12]!r}')
          sim.log('read', got)
          hist.append([inv, ret, ('r',), got])
      return body

    def main():
      fns = [(f'W{i}', writer(i)) for i in range(1 + ch.pick(2))]
      fns += [(f'R{i}', reader(i)) for i in range(1 + ch.pick(2))]
      ts = [sim.spawn(fn, name=n, proc=n if n[0] == 'W' else 'checker')
            for n, fn in fns]
      for t in ts:
        sim.join(t)
      for t in ts:
        if t.exc is not None:
          raise t.exc if isinstance(t.exc, core.Violation) else core.Violation(
              'fs-exception', f'{type(t.exc).__name__}: {t.exc}')
      final = self.raw_read(dst)
      got = None if final is None else final[
          :max(2, len(final) // size)].decode(errors='replace')
      if final is not None and final != got.encode() * size:
        raise core.Violation('torn-final', f'{final[:20]!r}')
      hist.append([sim.seq(), sim.seq(), ('r',), got])

      def apply(state, op):
        return (op[1], None) if op[0] == 'w' else (state, state)
      h = [tuple(r) for r in hist]
      if lincheck.check(h, init, apply) is False:
        raise core.Violation('publish-not-atomic', f'{h}')

    sim.run(main)

  def w_refuse(self, sim, root):
    """Without overwrite an occupied destination is never touched."""
    ch = sim.ch
    fs = self.fi.FileSystemInteraction()
    dst = f'{root}/dst'
    dst_kind = ch.choice(['file', 'empty-file', 'empty-dir', 'full-dir'])
    if dst_kind == 'file':
      self.raw_write(dst, b'original')
    elif dst_kind == 'empty-file':
      self.raw_write(dst, b'')
    else:
      oslevel.set_policy(None)
      os.mkdir(dst)
    if dst_kind == 'full-dir':
      self.raw_write(dst + '/x', b'inner')

    def intact():
      if dst_kind == 'file':
        return self.raw_read(dst) == b'original'
      if dst_kind == 'empty-file':
        return self.raw_read(dst) == b''
      if dst_kind == 'empty-dir':
        return os.path.isdir(dst) and not os.listdir(dst)
      return self.raw_read(dst + '/x') == b'inner'

    def mover(i):
      def body():
        for k in range(1 + ch.pick(2)):
          src = f'{root}/src-{i}-{k}'
          src_kind = ch.choice(['file', 'dir'])
          oslevel_policy = oslevel._policy
          oslevel.set_policy(None)
          if src_kind == 'file':
            self.raw_write(src, src.encode())
          else:
            os.mkdir(src)
            self.raw_write(src + '/c', src.encode())
          oslevel.set_policy(oslevel_policy)
          default = ch.chance(0.5)
          try:
            if default:
              fs.rename(src, dst)
            else:
              fs.rename(src, dst, overwrite=False)
            raised = False
          except (ValueError, OSError) as e:
            raised = True
            sim.log('refused', src_kind, dst_kind, type(e).__name__)
          if not raised:
            raise core.Violation(
                'overwrote', f'{src_kind} moved onto existing {dst_kind}')
          c = self.raw_read(src if src_kind == 'file' else src + '/c')
          if c != src.encode():
            raise core.Violation('source-lost', f'{src_kind} -> {dst_kind}')
          if not intact():
            raise core.Violation('destination-touched', dst_kind)
      return body

    def main():
      ts = [sim.spawn(mover(i), name=f'M{i}', proc=f'M{i}')
            for i in range(1 + ch.pick(3))]
      for t in ts:
        sim.join(t)
      for t in ts:
        if t.exc is not None:
          raise t.exc if isinstance(t.exc, core.Violation) else core.Violation(
              'fs-exception', f'{type(t.exc).__name__}: {t.exc}')
      if not intact():
        raise core.Violation('destination-touched', dst_kind)

    sim.run(main)

  def w_claim(self, sim, root):
    """Non-overlapping claims of one name: exactly the first one wins."""
    ch = sim.ch
    fs = self.fi.FileSystemInteraction()
    dst = f'{root}/claimed'
    lock = threading.Lock()
    state = {'content': None}

    def claimer(i):
      def body():
        for k in range(1 + ch.pick(2)):
          src = f'{root}/c-{i}-{k}'
          data = src.encode()
          self.raw_write(src, data)
          with lock:  # The harness keeps the calls from overlapping in time.
            before = state['content']
            if self.raw_read(dst) != before:
              raise core.Violation('content-changed', 'between claims')
            try:
              fs.rename(src, dst, overwrite=False)
              ok = True
            except (ValueError, OSError) as e:
              ok = False
              sim.log('claim-failed', type(e).__name__)
            now = self.raw_read(dst)
            sim.log('claim', ok, now == data)
            if ok and (before is not None or now != data
                       or self.raw_read(src) is not None):
              raise core.Violation('double-claim', f'{before} -> {now}')
            if not ok and before is not None and now != before:
              raise core.Violation('overwrote', f'{before} -> {now}')
            if self.raw_read(src) != data and now != data:
              raise core.Violation('source-lost', src)
            state['content'] = now
            if not fs_exists(dst, now is not None):
              raise core.Violation('exists-wrong', dst)
      return body

    def fs_exists(p, want):
      try:
        return fs.exists(p) == want and not fs.is_dir(p)
      except OSError:
        return True

    def main():
      ts = [sim.spawn(claimer(i), name=f'C{i}', proc=None)
            for i in range(1 + ch.pick(3))]
      for t in ts:
        sim.join(t)
      for t in ts:
        if t.exc is not None:
          raise t.exc if isinstance(t.exc, core.Violation) else core.Violation(
              'fs-exception', f'{type(t.exc).__name__}: {t.exc}')

    sim.run(main)

  def w_dirs(self, sim, root):
    """Concurrent make_dirs / glob / remove of distinct names."""
    ch = sim.ch
    fs = self.fi.FileSystemInteraction()
    paths = [f'{root}/a', f'{root}/a/b', f'{root}/a/b/c', f'{root}/a/d']
    stable = [f'{root}/s-{i}.kd' for i in range(ch.pick(4))]
    for s in stable:
      self.raw_write(s, b's')

    def body_for(i):
      def body():
        mine = f'{root}/m-{i}.kd'
        for _ in range(1 + ch.pick(4)):
          op = ch.pick(4)
          if op == 0:
            p = ch.choice(paths)
            fs.make_dirs(p)
            sim.log('mkdirs', p[len(root):])
            if not fs.is_dir(p):
              raise core.Violation('make-dirs', f'{p} is not there')
          elif op == 1:
            got = sorted(g for g in fs.glob(f'{root}/s-*.kd'))
            sim.log('glob', len(got))
            if got != sorted(stable):
              raise core.Violation(
                  'glob', f'stable files {stable} listed as {got}')
          elif op == 2:
            with fs.open(mine, 'wb') as f:
              f.write(b'mine')
            if not fs.exists(mine) or fs.is_dir(mine):
              raise core.Violation('exists-wrong', mine)
            with fs.open(mine, 'rb') as f:
              if f.read() != b'mine':
                raise core.Violation('content', mine)
          else:
            if fs.exists(mine):
              fs.remove(mine)
              if fs.exists(mine):
                raise core.Violation('remove', mine)
      return body

    def main():
      ts = [sim.spawn(body_for(i), name=f'D{i}') for i in range(2 + ch.pick(3))]
      for t in ts:
        sim.join(t)
      for t in ts:
        if t.exc is not None:
          raise t.exc if isinstance(t.exc, core.Violation) else core.Violation(
              'fs-exception', f'{type(t.exc).__name__}: {t.exc}')

    sim.run(main)

  def w_faulty(self, sim, root):
    """One process, I/O errors and a crash: nothing is ever lost or merged."""
    ch = sim.ch
    fs = self.fi.FileSystemInteraction()
    names = [f'{root}/n{i}' for i in range(3)]
    model = {}
    inflight = []

    def body():
      for k in range(2 + ch.pick(5)):
        op = ch.pick(4)
        a, b = ch.choice(names), ch.choice(names)
        inflight[:] = [op, a, b]
        if op == 0:
          if a not in model:
            data = f'data{k}'.encode()
            self.raw_write(a, data)
            model[a] = data
          continue
        if a == b:
          continue
        before = dict(model)
        try:
          if op == 1:
            fs.rename(a, b, overwrite=False)
          elif op == 2:
            fs.rename(a, b, overwrite=True)
          else:
            fs.remove(a)
          ok = True
        except (ValueError, OSError) as e:
          ok = False
          sim.log('failed', op, type(e).__name__)
        after = {n: self.raw_read(n) for n in names}
        after = {n: v for n, v in after.items() if v is not None}
        want_ok = dict(before)
        legal = True
        if op == 3:
          legal = a in before
          want_ok.pop(a, None)
        else:
          legal = a in before and not (op == 1 and b in before)
          if legal:
            want_ok[b] = want_ok.pop(a)
        sim.log('op', op, a[-2:], b[-2:], ok)
        if ok and not legal:
          raise core.Violation('illegal-success', f'op{op} {before}')
        if ok and after != want_ok:
          raise core.Violation('wrong-result', f'op{op} {before} -> {after}')
        if not ok and after != before and not (legal and after == want_ok):
          raise core.Violation(
              'damaged-by-failure', f'op{op} {a[-2:]}->{b[-2:]} '
              f'{before} -> {after}')
        model.clear()
        model.update(after)
        inflight[:] = []

    def main():
      t = sim.spawn(body, name='P', proc='P')
      sim.join(t)
      if t.exc is not None:
        raise t.exc if isinstance(t.exc, core.Violation) else core.Violation(
            'fs-exception', f'{type(t.exc).__name__}: {t.exc}')
      if t.state == core.CRASHED:
        after = {n: self.raw_read(n) for n in names}
        after = {n: v for n, v in after.items() if v is not None}
        ok = [dict(model)]
        if inflight:
          op, a, b = inflight
          if op in (1, 2) and a in model and a != b and not (
              op == 1 and b in model):
            m = dict(model)
            m[b] = m.pop(a)
            ok.append(m)
          elif op == 3:
            m = dict(model)
            m.pop(a, None)
            ok.append(m)
        if after not in ok:
          raise core.Violation(
              'damaged-by-crash', f'{inflight} {model} -> {after}')

    sim.run(main)
