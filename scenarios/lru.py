"""LruSizeTrackingCache: linearizable, byte-bounded LRU under any schedule."""

from sim import core
from sim import lincheck
from sim.scenario import Scenario


def model_apply(state, op):
  entries, mx = state  # entries: tuple of (key, value, size), oldest first
  name = op[0]
  d = {k: (v, s) for k, v, s in entries}
  if name == 'get':
    if op[1] not in d:
      return state, ('value', op[2])
    v, s = d[op[1]]
    rest = tuple(e for e in entries if e[0] != op[1])
    return (rest + ((op[1], v, s),), mx), ('value', v)
  if name == 'set':
    _, k, v, s = op
    if k in d:
      ov, os_ = d[k]
      rest = tuple(e for e in entries if e[0] != k)
      return (rest + ((k, ov, os_),), mx), ('value', ov)
    if s > mx:
      return state, ('value', v)
    es = list(entries)
    while sum(e[2] for e in es) > mx - s:
      es.pop(0)
    return (tuple(es) + ((k, v, s),), mx), ('value', v)
  if name == 'remove':
    return (tuple(e for e in entries if e[0] != op[1]), mx), None
  if name == 'total':
    return state, sum(e[2] for e in entries)
  if name == 'max':
    return state, mx
  if name == 'set_max':
    es = list(entries)
    while sum(e[2] for e in es) > op[1]:
      es.pop(0)
    return (tuple(es), op[1]), None
  if name == 'clear':
    return ((), mx), None
  raise AssertionError(name)


class Lru(Scenario):
  step_limit_is_violation = True
  step_limit = 120_000

  def setup(self):
    from koladata.ext.storage import lru_size_tracking_cache as m
    self.m = m

  def gen_op(self, ch, keys, mx):
    w = ch.weighted([5, 5, 2, self.total_weight, 1, 1, 1])
    if w == 0:
      k = ch.choice(keys)
      # The same key always has the same size (documented precondition); each
      # written value object is unique so that every read is attributable.
      return ['set', k, None, self.size_of[k]]
    if w == 1:
      return ['get', ch.choice(keys), None]
    if w == 2:
      return ['remove', ch.choice(keys)]
    if w == 3:
      return ['total']
    if w == 4:
      return ['set_max', ch.pick(mx + 4)]
    if w == 5:
      return ['clear']
    return ['max']

  def run(self, sim):
    ch = sim.ch
    nthreads = 2 + ch.pick(3)
    nkeys = 1 + ch.pick(4)
    mx = ch.pick(9)
    keys = [f'k{i}' for i in range(nkeys)]
    self.size_of = {k: ch.pick(5) for k in keys}
    # Some runs watch the byte counter closely while others write.
    self.total_weight = ch.choice([2, 2, 8])
    # Some runs store values which are falsy or equal to a default.
    odd_values = ch.pick(3) == 0
    plans = []
    uid = 0
    prefill = []
    for _ in range(ch.pick(5)):
      op = self.gen_op(ch, keys, mx)
      prefill.append(op)
    for _ in range(nthreads):
      plans.append([self.gen_op(ch, keys, mx)
                    for _ in range(1 + ch.pick(4))])
    for p in [prefill] + plans:
      for op in p:
        uid += 1
        if op[0] == 'set':
          op[2] = f'v{uid}'
          if odd_values and ch.pick(2):
            op[2] = ch.choice([None, 0, ''])
        elif op[0] == 'get':
          op[2] = f'd{uid}'
    hist = []
    md = self.m.CacheEntryMetadata

    def call(cache, op):
      name = op[0]
      if name == 'get':
        return ('value', cache.get(op[1], op[2]))
      if name == 'set':
        return ('value', cache.set(op[1], op[2], md(num_bytes_estimate=op[3])))
      if name == 'remove':
        return cache.remove(op[1])
      if name == 'total':
        return cache.get_total_bytes_of_entries_in_cache()
      if name == 'max':
        return cache.get_max_total_bytes_of_entries_in_cache()
      if name == 'set_max':
        return cache.set_max_total_bytes_of_entries_in_cache(op[1])
      if name == 'clear':
        return cache.clear()

    def do(cache, op):
      inv = sim.seq()
      sim.log('inv', tuple(op))
      try:
        r = call(cache, op)
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation(
            'lru-exception', f'{op} raised {type(e).__name__}: {e}')
      ret = sim.seq()
      sim.log('ret', tuple(op), r)
      hist.append((inv, ret, tuple(op), r))

    def main():
      cache = self.m.LruSizeTrackingCache(
          max_total_bytes_of_entries_in_cache=mx)
      for op in prefill:
        do(cache, op)

      def worker(plan):
        def body():
          for op in plan:
            do(cache, op)
        return body
      core.spawn_all(sim, [(f'c{i}', worker(p)) for i, p in enumerate(plans)])
      # Final audit: contents and counters, sequentially.
      do(cache, ['max'])
      do(cache, ['total'])
      # Shrinking one byte at a time reveals the recency order.
      for k in keys:
        do(cache, ['get', k, f'final-{k}'])
      top = sum(self.size_of.values()) + 1
      for lim in range(min(top, 12), -1, -1):
        do(cache, ['set_max', lim])
        do(cache, ['total'])
      return None

    sim.run(main)
    ok = lincheck.check(hist, ((), mx), model_apply)
    if ok is None:
      sim.probe('lincheck-gave-up')
    elif not ok:
      raise core.Violation(
          'lru-not-linearizable',
          f'no sequential LRU order explains the history (limit {mx} bytes, '
          f'sizes {self.size_of}): {sorted(hist)}')
