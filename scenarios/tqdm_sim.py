"""kd_ext.tqdm: reporter scoping and progress report fidelity."""

import contextvars
import threading

from sim import core
from sim.scenario import Scenario
from sim.seams import SimRLock


class _Null:

  def write(self, s):
    pass

  def flush(self):
    pass


class _Boom(Exception):
  pass


class TqdmBase(Scenario):
  step_limit = 150_000
  step_limit_is_violation = True

  def setup(self):
    import tqdm.std as std
    from koladata.ext.tqdm import context, types
    from koladata.ext.tqdm import tqdm as ktqdm
    import logging
    logging.getLogger(ktqdm.__name__).setLevel(logging.CRITICAL)
    self.std = std
    self.ctx = context
    self.types = types
    self.ktqdm = ktqdm
    std.tqdm.set_lock(SimRLock())

  def make_reporter(self, sim, name, config=None, on_set=None):
    types = self.types

    class Reporter(types.ProgressReporter):

      def __init__(self):
        super().__init__()
        self.name = name
        self.states = []
        self.inside = 0

      def _get_config(self):
        return config or types.TqdmConfig()

      def _set_progress_impl(self, state):
        if self.inside:
          raise core.Violation(
              'reporter-overlap',
              f'reporter {name} entered by two threads at once')
        self.inside += 1
        try:
          self.states.append((sim.seq(), state))
          sim.log('report', name, state.desc, state.n, state.is_closed)
          sim.maybe_preempt()
          if on_set is not None:
            on_set(self, state)
          sim.maybe_preempt()
        finally:
          self.inside -= 1

    if sim.ch.pick(4) == 0:
      # A reporter may be a container of what it has seen, hence falsy.
      Reporter.__bool__ = lambda self: False
    return Reporter()


class TqdmContext(TqdmBase):
  """Reporter scoping across threads, contexts, coroutines and exceptions."""

  def run(self, sim):
    ch = sim.ch
    ctx = self.ctx
    self.std.tqdm.monitor_interval = 0
    self.ktqdm.tqdm.monitor_interval = 0
    expected = {}  # label -> reporter name or None
    counter = [0]
    budget = [14 + ch.pick(30)]

    def expect(rep, where):
      got = ctx.get_reporter()
      sim.log('check', where, getattr(rep, 'name', None))
      if got is not rep:
        raise core.Violation(
            'wrong-reporter',
            f'{where}: active reporter is {getattr(got, "name", got)}, '
            f'expected {getattr(rep, "name", rep)}')

    def make_bar(rep):
      counter[0] += 1
      label = f'bar{counter[0]}'
      expected[label] = rep.name if rep is not None else None
      sim.log('bar', label, expected[label])
      return self.ktqdm.tqdm(total=5, desc=label, file=_Null(), mininterval=0)

    reporters = []

    def main():
      for i in range(2 + ch.pick(3)):
        reporters.append(self.make_reporter(sim, f'r{i}'))

      def pick_rep():
        i = ch.pick(len(reporters) + 1)
        return None if i == len(reporters) else reporters[i]

      def body(rep, depth, bars, where):
        """rep: the reporter that must be active here."""
        for _ in range(1 + ch.pick(3)):
          if budget[0] <= 0:
            return
          budget[0] -= 1
          expect(rep, where)
          op = ch.weighted([3, 3, 2, 2, 2, 2, 1])
          if op == 0:
            new = pick_rep()
            boom = ch.chance(0.3)
            try:
              with ctx.using_reporter(new) as got:
                if got is not new:
                  raise core.Violation('wrong-reporter', 'yielded other object')
                if depth < 3:
                  body(new, depth + 1, bars, where + '/with')
                expect(new, where + '/with-end')
                if ch.chance(0.25):
                  # A reporter set without a scope lasts until the scope ends.
                  sim.probe('unscoped-set')
                  other = pick_rep()
                  ctx.set_reporter(other)
                  expect(other, where + '/unscoped-set')
                if boom:
                  sim.probe('exception-in-scope')
                  raise (_Boom, KeyboardInterrupt, GeneratorExit)[ch.pick(3)]()
            except (_Boom, KeyboardInterrupt, GeneratorExit):
              pass
            expect(rep, where + '/after-with')
          elif op == 1:
            bars.append(make_bar(rep))
          elif op == 2 and bars:
            b = bars[ch.pick(len(bars))]
            b.update(1)
            b.refresh()
          elif op == 3:
            tok = ctx.set_reporter(pick_rep_ := pick_rep())
            expect(pick_rep_, where + '/set')
            sim.maybe_preempt()
            ctx.reset_reporter(tok)
            expect(rep, where + '/reset')
          elif op == 4 and depth < 3:
            sim.probe('child-thread')
            th = threading.Thread(
                target=guard(lambda: body(None, depth + 1, list(bars),
                                          where + '/thread')))
            th.start()
            if ch.chance(0.5):
              th.join()
              check_thread(th)
            else:
              pending.append(th)
          elif op == 5 and depth < 3:
            # Explicit propagation: a copied context carries the reporter.
            c = contextvars.copy_context()
            in_thread = ch.chance(0.5)
            sim.probe('copied-context')
            fn = lambda: body(rep, depth + 1, list(bars), where + '/ctx')  # pylint: disable=cell-var-from-loop
            if in_thread:
              th = threading.Thread(target=guard(lambda c=c, fn=fn: c.run(fn)))
              th.start()
              pending.append(th)
            else:
              c.run(fn)
              expect(rep, where + '/after-ctx')
          elif op == 6 and depth < 3:
            run_coroutines(rep, depth, bars, where)
            expect(rep, where + '/after-coro')

      def run_coroutines(rep, depth, bars, where):
        """Cooperative tasks, each in its own copied context (as asyncio)."""
        sim.probe('coroutines')

        class Pause:

          def __await__(self):
            yield

        async def task(i):
          expect(rep, f'{where}/coro{i}')
          for _ in range(1 + ch.pick(2)):
            new = pick_rep()
            try:
              with ctx.using_reporter(new):
                await Pause()
                expect(new, f'{where}/coro{i}-in')
                b = make_bar(new)
                await Pause()
                expect(new, f'{where}/coro{i}-in2')
                b.update(1)
                b.close()
                if ch.chance(0.3):
                  raise _Boom()
            except _Boom:
              pass
            await Pause()
            expect(rep, f'{where}/coro{i}-out')

        live = []
        for i in range(2 + ch.pick(2)):
          live.append((contextvars.copy_context(), task(i)))
        while live:
          k = ch.pick(len(live))
          c, co = live[k]
          try:
            c.run(co.send, None)
          except StopIteration:
            live.pop(k)

      pending = []
      failures = []

      def guard(fn):
        def g():
          try:
            fn()
          except core.Violation as e:
            failures.append(e)
          except Exception as e:  # pylint: disable=broad-except
            failures.append(core.Violation(
                'tqdm-exception', f'{type(e).__name__}: {e}'))
        return g

      def check_thread(th):
        if failures:
          raise failures[0]

      ths = []
      for i in range(1 + ch.pick(3)):
        ths.append(sim.spawn(guard(lambda i=i: body(None, 0, [], f'T{i}')),
                             name=f'T{i}'))
      for t in ths:
        sim.join(t)
      while pending:
        th = pending.pop(0)
        th.join()
      if failures:
        raise failures[0]
      seen = {}
      for r in reporters:
        for _, s in r.states:
          if expected.get(s.desc.rstrip(': ')) != r.name:
            raise core.Violation(
                'misrouted-report',
                f'{s.desc} created under {expected.get(s.desc)} reported to '
                f'{r.name}')
          seen.setdefault(s.desc.rstrip(': '), set()).add(s.bar_id)
      ids = {}
      for label, rep in expected.items():
        if rep is not None and label not in seen:
          raise core.Violation(
              'missing-report', f'{label} never reported to {rep}')
        if len(seen.get(label, ())) > 1:
          raise core.Violation('bar-id', f'{label} has several ids')
        for x in seen.get(label, ()):
          if x in ids:
            raise core.Violation(
                'bar-id', f'{label} and {ids[x]} share an id')
          ids[x] = label

    sim.run(main)


def _plain(s):
  import dataclasses
  return {k: v or None for k, v in dataclasses.asdict(s).items()}


class TqdmReport(TqdmBase):
  """Every bar's reports form a faithful, finally closed history."""

  def run(self, sim):
    ch = sim.ch
    use_monitor = ch.chance(0.3)
    iv = 10 if use_monitor else 0
    self.std.tqdm.monitor_interval = iv
    self.ktqdm.tqdm.monitor_interval = iv
    self.std.tqdm.monitor = None
    types = self.types
    clock_fault = ch.chance(0.3)
    slow = ch.chance(0.3)
    p_fail = ch.choice([0, 0, 0.2, 0.6, 1.0])
    reentrant = ch.chance(0.4)
    attempts = {}  # label -> list of states handed to the reporter

    def on_set(rep, state):
      attempts.setdefault(state.desc, []).append((sim.seq(), state))
      if reentrant:
        rep.tqdm_config  # pylint: disable=pointless-statement
        sim.probe('reentrant-config')
      if slow and ch.chance(0.3):
        sim.fault('slow-reporter')
        sim.sleep(ch.pick(40))
      if p_fail and ch.chance(p_fail):
        sim.fault('reporter-raises')
        raise ch.choice([ValueError, RuntimeError, OSError, KeyError])('boom')

    def main():
      cfg = types.TqdmConfig(
          mininterval=ch.choice([None, 0, 0.05, 5.0]),
          maxinterval=ch.choice([None, 0.5]),
          miniters=ch.choice([None, 1, 3]))
      reps = [self.make_reporter(sim, f'r{i}', cfg, on_set)
              for i in range(1 + ch.pick(2))]
      outcome = {}
      lock_free = object()

      def worker(i):
        rep = ch.choice(reps)
        style = ch.weighted([4, 3, 2, 2, 1, 1, 3])
        n_items = ch.pick(7)
        stop_at = ch.pick(n_items + 1) if ch.chance(0.4) else None
        how = ch.choice(['break', 'raise'])
        leave = ch.chance(0.7)
        disable = ch.chance(0.15)
        label = f'b{i}'
        initial = ch.choice([0, 0, 3])
        kw = dict(desc=label, leave=leave, file=_Null())
        if disable:
          kw['disable'] = True
        if initial:
          kw['initial'] = initial

        def step():
          if ch.chance(0.5):
            sim.sleep(ch.choice([0.001, 0.2, 3.0, 30.0]))
          if clock_fault and ch.chance(0.3):
            sim.fault('clock-jump')
            sim.now += ch.choice([3600.0, -5.0, -3600.0, 1e-3])

        def body():
          done = 0
          items = []
          with self.ctx.using_reporter(rep):
            if style in (0, 4):  # iterate
              try:
                total = {} if style == 0 else {'total': None}
                src = range(n_items) if style == 0 else (
                    x for x in range(n_items))
                for x in self.ktqdm.tqdm(src, **kw, **total):
                  items.append(x)
                  step()
                  if stop_at is not None and done >= stop_at:
                    if how == 'raise':
                      sim.fault('loop-body-raises')
                      raise _Boom()
                    sim.probe('loop-break')
                    break
                  done += 1
              except _Boom:
                pass
            elif style in (1, 5):  # manual, context manager
              try:
                with self.ktqdm.tqdm(total=n_items, **kw) as b:
                  for x in range(n_items):
                    step()
                    if stop_at is not None and done >= stop_at:
                      if how == 'raise':
                        sim.fault('loop-body-raises')
                        raise _Boom()
                      break
                    b.update(1)
                    done += 1
                    items.append(x)
                  if style == 5:
                    b.close()
                    b.close()
              except _Boom:
                pass
            elif style == 6:  # every refresh delivers the current state
              unit = ch.choice(['it', 'row'])
              goal = ch.choice([None, 0, 3, n_items])
              b = self.ktqdm.tqdm(total=goal, unit=unit, **kw)
              postfix = None
              for x in range(n_items):
                step()
                w = ch.pick(4)
                if w == 0:
                  postfix = f'loss={x}'
                  b.set_postfix_str(postfix, refresh=False)
                elif w == 1:
                  goal = ch.choice([1, 4, 9])
                  b.total = goal
                else:
                  k = ch.choice([1, 2, 5])
                  b.update(k)
                  done += k
                items.append(x)
                if disable or ch.chance(0.4):
                  continue
                b.refresh()
                sim.probe('refresh-checked')
                if not attempts.get(label):
                  raise core.Violation('refresh-unreported', label)
                s = attempts[label][-1][1]
                want = (initial + done, goal, initial, unit, postfix)
                got = (s.n, s.total, s.initial, s.unit, s.postfix)
                if got != want and (got[4] or want[4] or got[:4] != want[:4]):
                  raise core.Violation(
                      'refresh-unfaithful',
                      f'{label}: refreshed at (n, total, initial, unit, '
                      f'postfix)={want} but the last report says {got}')
              b.close()
            elif style == 2:  # manual close
              b = self.ktqdm.tqdm(total=n_items, **kw)
              for x in range(n_items):
                step()
                b.update(2)
                done += 2
                items.append(x)
                if ch.chance(0.2):
                  b.refresh()
              b.close()
              if ch.chance(0.5):
                b.close()
                b.update(1)
                b.refresh()
                sim.probe('use-after-close')
            else:  # trange
              for x in self.ktqdm.trange(n_items, **kw):
                items.append(x)
                step()
                done += 1
          outcome[label] = (rep, done, initial, leave, disable, items,
                            n_items, stop_at, style)
        return body

      failures = []

      def guard(fn):
        def g():
          try:
            fn()
          except core.Violation as e:
            failures.append(e)
          except Exception as e:  # pylint: disable=broad-except
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            failures.append(core.Violation(
                'loop-broken-by-reporting',
                f'{type(e).__name__}: {e} at {tb[-1].filename}:'
                f'{tb[-1].lineno}'))
        return g

      ts = [sim.spawn(guard(worker(i)), name=f'W{i}')
            for i in range(1 + ch.pick(3))]
      for t in ts:
        sim.join(t)
      if failures:
        raise failures[0]
      for label, (rep, done, initial, leave, disable, items, n_items,
                  stop_at, style) in outcome.items():
        want_items = list(range(n_items))
        if stop_at is not None and style in (0, 4):
          want_items = want_items[:stop_at + 1]
        if style not in (1, 5) and items != want_items:
          raise core.Violation(
              'items-lost', f'{label}: loop saw {items}, wanted {want_items}')
        st = [s for _, s in attempts.get(label, [])]
        if disable:
          # A disabled bar has no label; its reports must all be hidden.
          for _, s in attempts.get(None, []):
            if s.is_displayed:
              raise core.Violation('displayed-when-disabled', f'{s}')
          continue
        closed = [s for s in st if s.is_closed]
        if len(closed) != 1:
          raise core.Violation(
              'final-report', f'{label}: {len(closed)} final reports: {st}')
        if not st[-1].is_closed:
          raise core.Violation(
              'report-after-final', f'{label}: {st}')
        last = st[-1]
        if not disable and last.n != initial + done:
          raise core.Violation(
              'final-count',
              f'{label}: final report says {last.n}, {initial + done} done')
        if not disable and last.is_displayed != bool(leave):
          raise core.Violation(
              'final-displayed', f'{label}: leave={leave} but {last}')
        prev = None
        for s in st:
          back = self.types.ProgressState.from_proto(s.to_proto())
          if _plain(back) != _plain(s):
            raise core.Violation(
                'proto-round-trip', f'{label}: {s} comes back as {back}')
          if not disable and not s.is_closed and not s.is_displayed:
            raise core.Violation('hidden-while-open', f'{label}: {s}')
          if prev is not None and s.n is not None and s.n < prev:
            raise core.Violation(
                'count-went-back', f'{label}: {prev} then {s.n}')
          prev = s.n
          if s.bar_id != last.bar_id:
            raise core.Violation('bar-id', f'{label} changed id')
          back = types.ProgressState.from_proto(
              type(s.to_proto()).FromString(s.to_proto().SerializeToString()))
          for f in ('unit', 'bar_id', 'is_closed', 'is_displayed'):
            if getattr(back, f) != getattr(s, f):
              raise core.Violation('proto-roundtrip', f'{f}: {s} vs {back}')
          if (back.n or 0) != (s.n or 0) or (back.total or 0) != (s.total or 0):
            raise core.Violation('proto-roundtrip', f'{s} vs {back}')
      ids = {}
      for label in attempts:
        for _, s in attempts[label]:
          if ids.setdefault(s.bar_id, label) != label:
            raise core.Violation('bar-id', f'{label} shares an id')

    sim.run(main)
