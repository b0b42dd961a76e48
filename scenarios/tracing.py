"""Tracing mode: per-thread / per-context dispatch and restoration."""

import contextvars
import threading
import types as pytypes

from sim import core
from sim.scenario import Scenario


class _Boom(Exception):
  pass


class _Odd:
  """A falsy object that is not even equal to itself."""

  def __init__(self, name):
    self.name = name

  def __bool__(self):
    return False

  def __eq__(self, other):
    return False

  __hash__ = None


class Tracing(Scenario):
  step_limit_is_violation = True

  def setup(self):
    from koladata.expr import tracing_mode
    self.tm = tracing_mode

  def make_module(self):
    tm = self.tm
    cfg = {}
    mod = pytypes.ModuleType('sim_traced_module')

    def f():
      return 'eager-f'

    def f_tr():
      return 'tracing-f'

    def g():
      return 'eager-g'

    def h():
      return 'same-h'
    mod.f = tm.configure_tracing(cfg, f, f_tr)
    mod.g = tm.eager_only(cfg, g)
    mod.h = tm.same_when_tracing(cfg, h)
    # Constants whose truth value or equality says nothing (like DataSlices).
    mod.c = tm.configure_tracing(cfg, _Odd('eager-c'), _Odd('tracing-c'))
    mod.e = tm.eager_only(cfg, _Odd('eager-e'))
    mod.s = tm.same_when_tracing(cfg, _Odd('same-s'))
    mod.alias_of_c = mod.c
    mod.__all__ = ['f', 'g', 'h', 'c', 'e', 's', 'alias_of_c']
    d = tm.prepare_module_for_tracing(mod, cfg)
    # What happens to the dictionary or the module later must not matter.
    cfg.clear()
    return d

  def run(self, sim):
    ch = sim.ch
    tm = self.tm
    d = self.make_module()
    budget = [20 + ch.pick(40)]
    failures = []

    def expect(on, where):
      if bool(tm.is_tracing_enabled()) != on:
        raise core.Violation(
            'wrong-mode', f'{where}: tracing is {not on}, expected {on}')
      sim.log('mode', where, on)

    def probe_module(on, where):
      w = ch.pick(5)
      if w == 3:
        name = ch.choice(['c', 's', 'alias_of_c'])
        got = getattr(d, name).name
        want = 'same-s' if name == 's' else 'tracing-c' if on else 'eager-c'
      elif w == 4:
        try:
          got = d.e.name
        except AttributeError:
          got = 'attribute-error'
        want = 'attribute-error' if on else 'eager-e'
      elif w == 0:
        got = d.f()
        want = 'tracing-f' if on else 'eager-f'
      elif w == 1:
        try:
          got = d.g()
        except AttributeError:
          got = 'attribute-error'
        want = 'attribute-error' if on else 'eager-g'
      else:
        got, want = d.h(), 'same-h'
      if got != want:
        raise core.Violation(
            'wrong-dispatch', f'{where}: got {got}, expected {want}')

    pending = []

    def guard(fn):
      def g():
        try:
          fn()
        except core.Violation as e:
          failures.append(e)
        except Exception as e:  # pylint: disable=broad-except
          failures.append(core.Violation(
              'tracing-exception', f'{type(e).__name__}: {e}'))
      return g

    def body(on, depth, where):
      for _ in range(1 + ch.pick(4)):
        if budget[0] <= 0:
          return
        budget[0] -= 1
        expect(on, where)
        op = ch.weighted([4, 3, 2, 2, 2, 1])
        if op == 0:
          new = ch.chance(0.6)
          boom = ch.weighted([6, 2, 1])
          try:
            with tm.enable_tracing(new):
              if depth < 4:
                body(new, depth + 1, where + '/with')
              expect(new, where + '/with-end')
              if boom:
                sim.fault('exception-in-scope')
                raise _Boom() if boom == 1 else KeyboardInterrupt()
          except (_Boom, KeyboardInterrupt):
            pass
          expect(on, where + '/after-with')
        elif op == 1:
          probe_module(on, where)
        elif op == 2 and depth < 3:
          th = threading.Thread(
              target=guard(lambda: body(False, depth + 1, where + '/thread')))
          th.start()
          sim.probe('child-thread')
          if ch.chance(0.5):
            th.join()
          else:
            pending.append(th)
        elif op == 3 and depth < 3:
          c = contextvars.copy_context()
          sim.probe('copied-context')
          fn = lambda: body(on, depth + 1, where + '/ctx')
          if ch.chance(0.5):
            th = threading.Thread(target=guard(lambda c=c, fn=fn: c.run(fn)))
            th.start()
            pending.append(th)
          else:
            c.run(fn)
            expect(on, where + '/after-ctx')
        elif op == 4 and depth < 3:
          coros(on, where)
          expect(on, where + '/after-coro')
        elif op == 5:
          probe_module(on, where)

    def coros(on, where):
      sim.probe('coroutines')

      class Pause:

        def __await__(self):
          yield

      async def task(i):
        for _ in range(1 + ch.pick(3)):
          new = ch.chance(0.5)
          try:
            with tm.enable_tracing(new):
              await Pause()
              expect(new, f'{where}/coro{i}')
              probe_module(new, f'{where}/coro{i}')
              await Pause()
              expect(new, f'{where}/coro{i}b')
              if ch.chance(0.3):
                raise _Boom()
          except _Boom:
            pass
          await Pause()
          expect(on, f'{where}/coro{i}-out')

      live = [(contextvars.copy_context(), task(i))
              for i in range(2 + ch.pick(2))]
      while live:
        k = ch.pick(len(live))
        c, co = live[k]
        try:
          c.run(co.send, None)
        except StopIteration:
          live.pop(k)

    def main():
      ts = [sim.spawn(guard(lambda i=i: body(False, 0, f'T{i}')), name=f'T{i}')
            for i in range(1 + ch.pick(4))]
      for t in ts:
        sim.join(t)
      while pending:
        pending.pop(0).join()
      if failures:
        raise failures[0]
      expect(False, 'main-end')

    sim.run(main)
