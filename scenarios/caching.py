"""LruCache.cache_fn: a cached function gives what the function gives.

The whole of py/koladata/caching/lru_cache.py and the real tracing mode run;
the C++ cache behind it is a small model that evicts, with the same contract
(batched lookups, values stored one by one), and slices are mini-kd slices.
"""

import collections
import threading

from sim import core
from sim import minikd
from sim import stubload
from sim.scenario import Scenario
from sim.stubload import module

PY = '/repo/py/koladata/caching/lru_cache.py'


class _Boom(Exception):
  pass


def _deep_uuid(x):
  x = minikd.as_slice(x)
  vals = []
  for v in x._vals:
    if v is not None:
      v = minikd._uu('e', 'deep', repr(minikd._deep(
          minikd._mk([v], (), x._schema, x._bag))))
    vals.append(v)
  return minikd._mk(vals, x._dims, minikd.P_ITEMID)


OPS = {
    'kd.deep_uuid': _deep_uuid,
    'kd.ids.deep_uuid': _deep_uuid,
    'kd.uuid': minikd.uuid,
    'kd.ids.uuid': minikd.uuid,
    'kd.has_not': minikd.has_not,
    'kd.masking.has_not': minikd.has_not,
    'kd.has': minikd.has,
    'kd.masking.has': minikd.has,
}


def _eval_op(name, *args, **kw):
  sim = core.current_sim()
  if sim is not None:
    sim.maybe_preempt()
  if name not in OPS:
    raise core.HarnessError(f'operator {name} is not modelled')
  return OPS[name](*args, **kw)


class LruModel:
  """koladata.caching.clib.LruCache."""

  world = None
  created = []

  def __init__(self, capacity, extract_and_track_size):
    LruModel.created.append(self)
    self.capacity = capacity
    self.by_size = extract_and_track_size
    self.entries = collections.OrderedDict()

  def _lookup(self, key):
    if key not in self.entries:
      return None
    self.entries.move_to_end(key)
    return self.entries[key][0]

  def __getitem__(self, keys):
    core.current_sim().maybe_preempt()
    found = [None if k is None else self._lookup(k) for k in keys._vals]
    schema, bags = minikd.P_NONE, []
    for f in found:
      if f is None:
        continue
      if f._schema is not minikd.P_NONE:
        schema = (f._schema if schema is minikd.P_NONE
                  else minikd._common_schema(schema, f._schema))
      if f._bag is not None and f._bag not in bags:
        bags.append(f._bag)
    bag = None
    if bags:
      bag = bags[0] if len(bags) == 1 else minikd.bags_enriched(*bags)
    res = minikd._mk([None if f is None else f._vals[0] for f in found],
                     keys._dims, schema, bag)
    self.world.looked_up(keys, res)
    core.current_sim().maybe_preempt()
    return res

  def __setitem__(self, keys, values):
    keys = minikd.as_slice(keys)
    vals = minikd._expand(values._vals, values._dims, keys._dims)
    for k, v in zip(keys._vals, vals):
      if k is None or v is None:
        continue
      one = minikd._mk([v], (), values._schema, values._bag)
      if self.by_size and one._bag is not None:
        one = one.extract()
      core.current_sim().maybe_preempt()
      self.world.stored(k, v)
      self.entries.pop(k, None)
      self.entries[k] = (one, 1 if not self.by_size else 50 + len(
          repr(minikd._deep(one))))
      while (len(self.entries) > 1 and
             sum(w for _, w in self.entries.values()) > self.capacity):
        self.entries.popitem(last=False)
        self.world.evicted()

  def clear(self):
    core.current_sim().maybe_preempt()
    self.entries.clear()


def load(tracing_mode):
  stubs = {
      'koladata.caching': module('caching', clib=module(
          'clib', LruCache=LruModel)),
      'koladata.expr.py_expr_eval_py_ext': module(
          'py_expr_eval_py_ext', eval_op=_eval_op),
      'koladata.expr.tracing_mode': tracing_mode,
      'koladata.types': module('types', data_slice=module(
          'data_slice', DataSlice=minikd.DataSlice)),
  }
  return stubload.load(PY, 'sim_lru_cache', stubs)


class Call:
  """What a running call has seen."""

  def __init__(self):
    self.hits = None
    self.args = []        # of the function
    self.fresh = set()    # results computed by this call
    self.raised = False
    self.stored = []
    self.rejected = None  # what is_hit_fn said about what was found
    self.bad_new = set()  # new results that it rejected


class CachedFunctions(Scenario):
  step_limit_is_violation = True

  def setup(self):
    minikd.install()
    from koladata.expr import tracing_mode
    self.tm = tracing_mode
    self.lib = load(tracing_mode)

  # -- what the model of the cache reports ------------------------------------
  def looked_up(self, keys, res):
    del keys
    self.local.call.hits = [v is not None for v in res._vals]

  def stored(self, key, value):
    self.local.call.stored.append((key, value))

  def evicted(self):
    self.evictions += 1

  # -- functions ----------------------------------------------------------------
  def make_fn(self, i):
    """(function, is_hit_fn, what it gives for one number)."""
    ch, sim = self.ch, self.sim
    kind = ch.choice(['int', 'ent', 'str'])
    schema = (minikd.named_schema(f'res{i}', v=minikd.INT32)
              if kind == 'ent' else None)
    holes = ch.chance(0.5)          # missing for multiples of 5
    flaky = ch.chance(0.5)          # sometimes gives something to be rejected
    pflaky = ch.choice([0.2, 0.6])
    booms = ch.choice([0, 0, 0.2])

    def one(n):
      if n is None or holes and n % 5 == 0:
        return None
      return 1000 * (i + 1) + n * n

    def wrap(vals, dims):
      ints = minikd._mk(vals, dims, minikd.P_INT32)
      if kind == 'int':
        return ints
      if kind == 'str':
        return minikd._mk([None if v is None else f's{v}' for v in vals],
                          dims, minikd.P_STRING)
      return minikd.new(v=ints, schema=schema) & minikd.has(ints)

    def read(ds):
      """The numbers of a result."""
      if kind == 'ent':
        if ds._schema is minikd.P_NONE:
          return [None] * len(ds._vals)
        ds = ds.get_attr('v')
      if kind == 'str':
        return [None if v is None else int(v[1:]) for v in ds._vals]
      return list(ds._vals)

    def fn(args):
      """Computes."""
      call = self.local.call
      nums = self.numbers(args)
      call.args.append(nums)
      sim.maybe_preempt()
      if ch.chance(booms):
        sim.fault('function-raises')
        call.raised = True
        raise _Boom()
      out = []
      for n in nums:
        v = one(n)
        if v is not None and flaky and ch.chance(pflaky):
          self.bad += 1
          v = -self.bad
          sim.fault('result-to-reject')
        if v is not None:
          call.fresh.add(v)
        out.append(v)
      sim.maybe_preempt()
      return wrap(out, args._dims)

    expired = set()                 # results that are no longer good

    def is_hit(res):
      sim.maybe_preempt()
      vals = read(res)
      good = [v is not None and v >= 0 and v not in expired for v in vals]
      call = self.local.call
      if not call.args:
        call.rejected = [v is not None and not g for v, g in zip(vals, good)]
      else:
        call.bad_new |= {v for v, g in zip(vals, good)
                         if v is not None and not g}
      return minikd._mk([minikd.PRESENT if g else None for g in good],
                        res._dims, minikd.P_MASK)

    return fn, (is_hit if flaky else None), one, read, flaky, expired

  def numbers(self, args):
    if args._schema is minikd.P_INT32:
      return list(args._vals)
    if args._schema is minikd.P_NONE:
      return [None] * len(args._vals)
    return list(args.get_attr('n')._vals)

  def gen_args(self):
    ch = self.ch
    shape = ch.pick(4)
    if shape == 0:
      dims, n = (), 1
    elif shape == 3:
      a, b = ch.pick(3), 1 + ch.pick(2)
      dims, n = ((2,), (a, b)), a + b
    else:
      n = ch.weighted([1, 2, 3, 3, 2])
      dims = ((n,),)
    vals = [None if ch.chance(0.12) else ch.pick(self.domain)
            for _ in range(n)]
    ints = minikd._mk(vals, dims, minikd.P_INT32)
    if ch.chance(0.4) and vals:
      return self.entities(ints)
    return ints

  def entities(self, ints):
    """Equal contents are one argument; an item alone is not."""
    itemid = None
    if self.ch.chance(0.5):
      itemid = minikd.uuid(seed='arg', i=minikd._mk(
          list(range(len(ints._vals))), ints._dims, minikd.P_INT32))
    return (minikd.new(n=ints, schema=self.arg_schema, itemid=itemid)
            & minikd.has(ints))

  def run(self, sim):
    ch = self.ch = sim.ch
    self.sim = sim
    self.local = threading.local()
    self.bad = self.evictions = 0
    LruModel.world = self
    LruModel.created = []
    self.arg_schema = minikd.named_schema('arg', n=minikd.INT32)
    self.domain = ch.choice([2, 6, 12])
    Mode = self.lib.LruCache.Mode
    by_size = ch.chance(0.4)
    big = ch.chance(0.4)
    cap = 10 ** 6 if big else ch.choice([60, 150, 400] if by_size
                                        else [1, 2, 4])
    cache = self.lib.LruCache(
        cap, Mode.CAPACITY_IS_BYTE_SIZE if by_size
        else Mode.CAPACITY_IS_ELEMENT_COUNT)
    real, = LruModel.created
    if real.by_size != by_size or real.capacity != cap:
      raise core.Violation('wrong-capacity', f'{cap} {by_size}')
    fns = []
    for i in range(1 + ch.pick(3)):
      fn, is_hit, one, read, flaky, expired = self.make_fn(i)
      self.local.call = Call()
      try:
        f = cache.cache_fn(f'fn{i}', is_hit)(fn) if is_hit or ch.chance(0.5) \
            else cache.cache_fn(f'fn{i}')(fn)
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation('unexpected-exception',
                             f'cache_fn: {type(e).__name__}: {e}') from e
      if f.__doc__ != fn.__doc__:
        raise core.Violation('wrong-result', 'the docstring is lost')
      fns.append((f, one, read, flaky, expired))
    cleared = [0]
    changes = [0]     # of what is expired

    def call(i, args, tracing):
      f, one, read, flaky, expired = fns[i]
      was_expired, was_changes = set(expired), changes[0]
      nums = self.numbers(args)
      want = [one(n) for n in nums]
      c = self.local.call = Call()
      what = f'fn{i}({nums})'
      try:
        if tracing:
          with self.tm.enable_tracing():
            res = f(args)
        else:
          res = f(args)
      except _Boom:
        if not c.raised:
          raise core.Violation('unexpected-exception', what) from None
        if c.stored:
          raise core.Violation(
              'wrong-store', f'{what} stored {c.stored} although it raised')
        return None
      except AssertionError:
        if tracing and not c.args:
          return None
        raise core.Violation('unexpected-exception', what) from None
      except core.Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation('unexpected-exception',
                             f'{what}: {type(e).__name__}: {e}') from e
      if tracing:
        raise core.Violation('wrong-result', f'{what} while tracing')
      if c.raised:
        raise core.Violation('exception-lost', what)
      if res._dims != args._dims:
        raise core.Violation('wrong-result', f'{what}: shape {res._dims}')
      got = read(res)
      sim.log('call', i, nums, got)
      for n, g, w in zip(nums, got, want):
        if g != w and not (flaky and g is not None and g < 0
                           and g in c.fresh):
          raise core.Violation('wrong-result', f'{what} gives {got}, not '
                               f'{want}')
      if len(c.args) > 1:
        raise core.Violation('extra-call', f'{what}: {c.args}')
      if c.hits is None:
        raise core.Violation('no-lookup', what)
      # The function is given what was not found, and only that.
      hits = list(c.hits)
      if c.rejected is not None:
        hits = [h and not b for h, b in zip(hits, c.rejected)]
      left = [None if h else n for n, h in zip(nums, hits)]
      if c.args and c.args[0] != left:
        raise core.Violation(
            'wrong-arguments', f'{what}: found {hits}, called with '
            f'{c.args[0]}')
      if bool(c.args) != any(n is not None for n in left):
        raise core.Violation(
            'wrong-arguments', f'{what}: found {hits}, called with {c.args}')
      if flaky and changes[0] == was_changes:
        for n, w in zip(nums, want):
          if w in was_expired and not any(n in a for a in c.args):
            raise core.Violation(
                'wrong-result', f'{what} uses an expired value, {w}')
      for _, v in c.stored:
        v = int(v[1:]) if isinstance(v, str) else v
        if isinstance(v, int) and v in c.bad_new:
          raise core.Violation('wrong-store', f'{what} stored {v}')
      if flaky and changes[0] == was_changes:
        for _, v in c.stored:
          v = int(v[1:]) if isinstance(v, str) else v
          if isinstance(v, int) and (v < 0 or v in expired):
            raise core.Violation('wrong-store', f'{what} stored {v}')
      return c

    def again(i, args, before):
      """Nothing is computed again that was stored and not evicted."""
      nums = self.numbers(args)
      if args._schema is not minikd.P_INT32 and ch.chance(0.5):
        # The same contents in other entities.
        args = self.entities(args.get_attr('n')) if args._vals else args
      c = call(i, args, False)
      if c is None or before is None or cleared[0] or self.evictions:
        return
      for n, w in zip(nums, [fns[i][1](n) for n in nums]):
        if w is None:
          continue
        computed = any(n in a for a in c.args)
        if computed and not fns[i][3]:
          raise core.Violation('computed-again', f'fn{i}({nums}): {c.args}')

    def actor(t):
      def body():
        for _ in range(1 + ch.pick(5)):
          op = ch.weighted([8, 2, 1, 1, 2])
          i = ch.pick(len(fns))
          args = self.gen_args()
          if op == 0:
            call(i, args, False)
          elif op == 1:
            c = call(i, args, False)
            again(i, args, c)
          elif op == 2:
            call(i, args, True)
          elif op == 4:
            sim.fault('expire')
            changes[0] += 1
            _, one, _, _, expired = fns[i]
            for n in range(self.domain):
              w = one(n)
              if ch.chance(0.4):
                expired ^= {w} - {None}
          else:
            sim.fault('clear')
            cleared[0] += 1
            cache.clear()
      return body

    def main():
      ts = [sim.spawn(actor(t), name=f'T{t}') for t in range(1 + ch.pick(3))]
      for t in ts:
        sim.join(t)
      for t in ts:
        if t.exc is not None:
          raise t.exc
      if self.evictions:
        sim.probe('evicted')
      # Direct use of the cache.
      k = minikd.uuid(x=minikd.item(1))
      self.local.call = Call()
      cache[k] = minikd.item(7)
      if cache[k]._vals != [7]:
        raise core.Violation('wrong-result', f'cache[k] is {cache[k]}')
      cache.clear()
      if cache[k]._vals != [None]:
        raise core.Violation('wrong-result', 'a cleared cache has a value')

    sim.run(main)
