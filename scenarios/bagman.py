"""DataBagManager under crashes, I/O faults, concurrent writers and readers.

The oracle is an executable model: a directory is a log of commits, each commit
a list of bags (name, facts, dependencies, custom metadata).
"""

from sim import core
from sim import simfs
from sim import storage_env
from sim.scenario import Scenario

DIR = '/disk/mgr'
TWIN = '/disk/twin'


class Bag:
  __slots__ = ('name', 'bag', 'facts', 'deps', 'meta', 'any')

  def __init__(self, name, bag, deps, meta, any_):
    self.name, self.bag, self.deps, self.meta, self.any = (
        name, bag, tuple(deps), meta, any_)
    self.facts = storage_env.bag_facts(bag)

  def __repr__(self):
    return self.name


class View:
  """What one manager instance must look like: an ordered list of Bags."""

  def __init__(self, bags=()):
    self.bags = list(bags)

  @property
  def names(self):
    return [b.name for b in self.bags]

  def get(self, name):
    return next(b for b in self.bags if b.name == name)

  def closure(self, names, dependents):
    names = set(names)
    if dependents:
      grown = True
      while grown:
        grown = False
        for b in self.bags:
          if b.name not in names and names & set(b.deps):
            names.add(b.name)
            grown = True
    todo, out = list(names), set()
    while todo:
      n = todo.pop()
      if n in out:
        continue
      out.add(n)
      todo.extend(self.get(n).deps)
    return [b for b in self.bags if b.name in out]

  def merged(self, kd, bags):
    return storage_env.bag_facts(kd.bags.updated(*[b.bag for b in bags]))


class BagBase(Scenario):
  """Shared machinery."""
  step_limit = 400_000
  trace_fraction = 0.0

  def setup(self):
    self.env = storage_env.setup()
    self.kd = self.env.kd

  def make_sim(self, choices):
    traced = choices.chance(self.trace_fraction) if self.trace_fraction else 0
    sim = core.Sim(choices, step_limit=self.step_limit,
                   trace_roots=self.trace_roots if traced else ())
    sim.choose_gap_mode()
    return sim

  # -- world ------------------------------------------------------------------
  def begin(self, sim):
    self.sim = sim
    self.ch = sim.ch
    self.store = simfs.Store()
    self.store.dirs.add('/disk')
    self.counter = 0
    self.objs = [self.kd.new() for _ in range(3)]
    self.nproc = 0

  def fs(self, plan=None):
    return self.env.SimFS(self.sim, self.store, plan)

  def clean_fs(self):
    return self.env.SimFS(self.sim, self.store, None)

  def proc(self, name=None):
    self.nproc += 1
    p = f'{name or "p"}#{self.nproc}'
    self.env.cache.reset(p)
    return p

  def set_cache(self, size):
    self.env.cache.set_max_total_bytes_of_entries_in_cache(size)

  def draw_cache(self):
    return self.ch.choice([1 << 30, 0, 300, 700, 2000])

  def gen_bags(self, view, n, prefix='b'):
    """A valid argument list for add_bags on top of `view`, as model bags."""
    kd, ch = self.kd, self.ch
    out = []
    for _ in range(n):
      self.counter += 1
      i = self.counter
      name = f'{prefix}{i}'
      if (prefix == 'b' and '' not in view.names + [b.name for b in out]
          and ch.chance(0.1)):
        name = ''
      cands = view.names + [b.name for b in out]
      deps = []
      for c in cands:
        if ch.chance(0.3):
          deps.append(c)
      # Conflicting facts about shared objects make the merge order observable;
      # the unique attribute makes presence of the bag observable.
      attrs = {f'u{i}': i}
      attrs['x'] = f'x-{name}'
      if ch.chance(0.5):
        attrs['y'] = i
      if ch.chance(0.2):
        attrs['big'] = 'z' * ch.choice([10, 3000])
      bag = kd.attrs(ch.choice(self.objs), **attrs)
      if ch.chance(0.1):
        bag = kd.bag()
      meta = any_ = None
      if ch.chance(0.3):
        any_ = self.env.any_pb2.Any(
            type_url='type.test/x', value=f'meta-{name}-{i}'.encode())
        meta = any_.SerializeToString()
      out.append(Bag(name, bag, deps, meta, any_))
    return out

  def to_add(self, bags):
    return [self.env.dbm.BagToAdd(
        b.name, b.bag, b.deps, **({'custom_metadata': b.any} if b.any is not None
                                  else {})) for b in bags]

  # -- checks -----------------------------------------------------------------
  def names_of(self, mgr):
    return set(mgr.get_available_bag_names())

  def check_names(self, mgr, view, what):
    got = self.names_of(mgr)
    if got != set(view.names):
      raise core.Violation(
          what, f'manager shows bags {sorted(got)}, expected '
          f'{sorted(view.names)}')

  def check_full(self, mgr, view, what):
    """Everything observable of the instance equals the model."""
    self.check_names(mgr, view, what)
    self.check_meta(mgr, view, what)
    names = view.names
    if not names:
      return
    loaded = mgr.load_bags(names)
    self.check_loaded(loaded, view.bags, what)
    merged = storage_env.bag_facts(mgr.get_minimal_bag(names))
    if merged != view.merged(self.kd, view.bags):
      raise core.Violation(
          what + '-order', f'merged content of {names} is wrong: '
          f'{diff(merged, view.merged(self.kd, view.bags))}')

  def check_meta(self, mgr, view, what):
    got = mgr.get_custom_metadata(view.names)
    got = {k: None if v is None else v.SerializeToString()
           for k, v in got.items()}
    want = {b.name: b.meta for b in view.bags}
    if got != want:
      raise core.Violation(
          what + '-metadata', f'custom metadata {got}, expected {want}')

  def check_loaded(self, loaded, bags, what):
    if set(loaded) != {b.name for b in bags}:
      raise core.Violation(
          what, f'loaded {sorted(loaded)} expected {[b.name for b in bags]}')
    for b in bags:
      got = storage_env.bag_facts(loaded[b.name])
      if got != b.facts:
        raise core.Violation(
            what + '-content', f'bag {b.name}: {diff(got, b.facts)}')

  def check_query(self, mgr, view, what):
    """A random partial read."""
    if not view.bags:
      return
    ch = self.ch
    names = [b.name for b in view.bags if ch.chance(0.4)]
    if not names:
      names = [ch.choice(view.bags).name]
    dep = ch.chance(0.4)
    want = view.closure(names, dep)
    kw = {'with_all_dependents': True} if dep else {}
    if ch.chance(0.5):
      self.check_loaded(mgr.load_bags(names, **kw), want, what)
    else:
      got = storage_env.bag_facts(mgr.get_minimal_bag(names, **kw))
      exp = view.merged(self.kd, want)
      if got != exp:
        raise core.Violation(
            what, f'get_minimal_bag({names}, dependents={dep}): '
            f'{diff(got, exp)}')

  def check_deps(self, mgr, view, what):
    """The dependency relation, observed through single-bag closures."""
    for b in view.bags:
      got = set(mgr.load_bags([b.name]))
      want = {x.name for x in view.closure([b.name], False)}
      if got != want:
        raise core.Violation(
            what + '-dependencies',
            f'closure of {b.name} is {sorted(got)}, expected {sorted(want)}')

  def check_rejects(self, mgr, view, bad):
    """Invalid batches are refused as a whole."""
    ch = self.ch
    b = bad[0]
    if ch.chance(0.5) and view.bags:
      name = ch.choice(view.bags).name
      batch = bad + [Bag(name, b.bag, (), None, None)]
      if ch.chance(0.3):
        batch = bad + bad
    else:
      batch = bad + [Bag(b.name + '_2', b.bag, ('no-such',), None, None)]
    try:
      mgr.add_bags(self.to_add(batch))
    except ValueError:
      self.check_full(mgr, view, 'rejected-batch')
      return
    raise core.Violation('accepted-invalid', f'{[x.name for x in batch]}')

  def join_all(self, tasks):
    for t in tasks:
      self.sim.join(t)
    for t in tasks:
      if isinstance(t.exc, (core.Violation, core.HarnessError)):
        raise t.exc
      if t.exc is not None:
        raise core.Violation(
            'unexpected-exception',
            f'{t.name}: {type(t.exc).__name__}: {t.exc}')


def diff(got, want):
  out = []
  for part, (g, w) in zip(('facts', 'lists', 'dicts'), zip(got, want)):
    for k in set(g) | set(w):
      if g.get(k) != w.get(k) or (k in g) != (k in w):
        out.append(f'{part} {k}: got {g.get(k)!r} want {w.get(k)!r}')
  return '; '.join(sorted(out)[:4])


class BagCrash(BagBase):
  """Crash at any point of any write; only the disk survives."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    committed = View()
    state = {'created': False, 'inflight': None, 'acked': 0}

    def life(last):
      """One process lifetime."""
      plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
      if not last:
        plan.crash_at = ch.pick(12 if ch.chance(0.5) else 60)
        if ch.chance(0.2):
          plan.slow_p = 0.1
      fs = self.fs(plan)

      def body():
        self.set_cache(self.draw_cache())
        if not state['created']:
          state['inflight'] = 'create'
          mgr = self.env.dbm.DataBagManager.create_new(DIR, fs=fs)
          state['created'] = True
          state['inflight'] = None
        else:
          mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
        self.settle(mgr, committed, state)
        self.check_full(mgr, committed, 'durability')
        for _ in range(1 + ch.pick(3)):
          new = self.gen_bags(committed, ch.pick(5))
          state['inflight'] = new
          sim.log('add', [b.name for b in new])
          mgr.add_bags(self.to_add(new))
          state['inflight'] = None
          committed.bags.extend(new)
          sim.log('acked', [b.name for b in new])
          if ch.chance(0.5):
            self.check_query(mgr, committed, 'read-after-write')
        if last:
          self.check_full(mgr, committed, 'durability')
      return body

    def main():
      lives = 1 + ch.pick(3)
      for i in range(lives + 1):
        last = i == lives
        t = sim.spawn(life(last), name=f'L{i}', proc=self.proc('L'))
        sim.join(t)
        if isinstance(t.exc, (core.Violation, core.HarnessError)):
          raise t.exc
        if t.exc is not None:
          raise core.Violation(
              'unusable-after-crash',
              f'{type(t.exc).__name__}: {t.exc} (no I/O fault was injected; '
              f'inflight={state["inflight"]})')
        if t.state == core.CRASHED:
          sim.probe('crashed')
          if state['inflight'] == 'create':
            # Creation was never acknowledged: start over elsewhere unless the
            # directory turns out to be usable.
            self.retry_create(state)
          # The reader after the crash decides what happened to the write.
          if state['created']:
            self.audit(committed, state)

    sim.run(main)

  def retry_create(self, state):
    fs = self.clean_fs()
    try:
      mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
    except Exception:  # pylint: disable=broad-except
      # Not created; wipe the debris as an operator would.
      for f in [f for f in self.store.files if f.startswith(DIR)]:
        del self.store.files[f]
      self.store.dirs.discard(DIR)
      state['inflight'] = None
      return
    if self.names_of(mgr):
      raise core.Violation('phantom', 'half-created manager has bags')
    self.sim.probe('create-survived')
    state['created'] = True
    state['inflight'] = None

  def settle(self, mgr, committed, state):
    """Resolves an unacknowledged add from what the disk shows: all or none."""
    fl = state['inflight']
    if not isinstance(fl, list):
      return
    got = self.names_of(mgr)
    before = set(committed.names)
    after = before | {b.name for b in fl}
    if got == before:
      self.sim.probe('inflight-lost')
    elif got == after:
      self.sim.probe('inflight-kept')
      committed.bags.extend(fl)
    else:
      raise core.Violation(
          'partial-commit', f'after the crash the directory shows '
          f'{sorted(got)}; expected {sorted(before)} or {sorted(after)}')
    state['inflight'] = None

  def audit(self, committed, state):
    mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=self.clean_fs())
    self.settle(mgr, committed, state)
    self.check_full(mgr, committed, 'durability')
    self.check_deps(mgr, committed, 'durability')


class BagFaults(BagBase):
  """Failing I/O: an operation that raises has not changed the manager."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
    kinds = [k for k in simfs.KINDS if ch.chance(0.5)] or ['io-error']
    fs = self.fs(plan)

    def arm():
      plan.enabled = True
      plan.p, plan.kinds, plan.fail_at = 0.0, kinds, None
      if ch.chance(0.6):
        plan.fail_at = (ch.pick(14), ch.choice(kinds))
      else:
        plan.p = ch.choice([0.05, 0.2])

    def disarm():
      plan.enabled = False

    def disk_view(view, new):
      """What a fresh instance sees after a failed add: all or nothing."""
      m = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=self.clean_fs())
      got = self.names_of(m)
      before, after = set(view.names), set(view.names) | {b.name for b in new}
      if got == before and (new or not self.moved()):
        return False
      if got == after:
        v = View(view.bags + new)
        self.check_full(m, v, 'failed-add')
        return True
      raise core.Violation(
          'partial-commit', f'a failed add left {sorted(got)} on disk; '
          f'expected {sorted(before)} or {sorted(after)}')

    def main():
      t = sim.spawn(body, name='P', proc=self.proc())
      self.join_all([t])

    def body():
      self.set_cache(self.draw_cache())
      disarm()
      mgr = self.env.dbm.DataBagManager.create_new(DIR, fs=fs)
      view = View()
      stale = False
      for _ in range(2 + ch.pick(4)):
        op = ch.weighted([5, 3, 2])
        if not stale and ch.chance(0.15):
          self.check_rejects(mgr, view, self.gen_bags(view, 1))
          self.check_full(
              self.env.dbm.DataBagManager.create_from_dir(
                  DIR, fs=self.clean_fs()), view, 'rejected-batch')
        if stale:
          # A lost acknowledgement moved the directory on: this instance must
          # refuse further writes and keep serving its own revision.
          new = self.gen_bags(view, 1 + ch.pick(2))
          try:
            mgr.add_bags(self.to_add(new))
          except Exception as e:  # pylint: disable=broad-except
            sim.log('refused', type(e).__name__)
          else:
            raise core.Violation(
                'lost-update', 'a stale manager overwrote a committed update')
          self.check_full(mgr, view, 'stale-view')
          mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
          view = View(stale)
          self.check_full(mgr, view, 'reopened')
          stale = False
          continue
        if op == 0:
          new = self.gen_bags(view, 1 + ch.pick(4))
          ups = self.top_update()
          arm()
          try:
            mgr.add_bags(self.to_add(new))
            ok = True
          except core.Violation:
            raise
          except Exception as e:  # pylint: disable=broad-except
            ok = False
            sim.log('add-failed', type(e).__name__, [b.name for b in new])
          disarm()
          self._moved = self.top_update() != ups
          if ok:
            view.bags.extend(new)
            self.check_full(mgr, view, 'acked-add')
            self.audit(view)
            continue
          sim.probe('failed-add')
          # Failure: this instance is exactly where it was.
          self.check_full(mgr, view, 'failed-add')
          if disk_view(view, new):
            sim.probe('lost-ack-commit')
            stale = view.bags + new
            continue
          if ch.chance(0.8):
            # Nothing was committed: once the fault is gone a retry works.
            if ch.chance(0.3):
              new = self.gen_bags(view, 1 + ch.pick(3))
            try:
              mgr.add_bags(self.to_add(new))
            except Exception as e:  # pylint: disable=broad-except
              raise core.Violation(
                  'retry-refused', 'the fault is gone and nothing was '
                  f'committed, but the retry failed: {e}')
            view.bags.extend(new)
            self.check_full(mgr, view, 'retried-add')
            self.audit(view)
        elif op == 1:
          # Reads under faults: either raise or be right.
          if ch.chance(0.5):
            mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
          arm()
          try:
            self.check_query(mgr, view, 'faulty-read')
          except core.Violation:
            raise
          except Exception as e:  # pylint: disable=broad-except
            sim.log('read-failed', type(e).__name__)
            sim.probe('failed-read')
          disarm()
          self.check_full(mgr, view, 'after-failed-read')
        else:
          arm()
          m2 = None
          try:
            m2 = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
          except Exception as e:  # pylint: disable=broad-except
            sim.log('open-failed', type(e).__name__)
          disarm()
          if m2 is not None:
            self.check_full(m2, view, 'open-under-faults')

    sim.run(main)

  _moved = False

  def moved(self):
    return self._moved

  def top_update(self):
    return len([f for f in self.store.files if f.startswith(DIR)
                and 'metadata' in f])

  def audit(self, view):
    m = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=self.clean_fs())
    self.check_full(m, view, 'acked-on-disk')


class BagWriters(BagBase):
  """Several processes on one directory, atomic rename, any interleaving."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    log = []          # committed batches, in commit order, as discovered
    crashes = ch.chance(0.3)
    nw = 2 + ch.pick(2)
    nr = ch.pick(3)
    acked = []        # (batch, base names)
    unknown = []      # batches whose writer crashed
    attempts = [0]
    hist_views = []

    def writer(i):
      plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
      if crashes and i == 0:
        plan.crash_at = ch.pick(30)
      elif ch.chance(0.3):
        plan.slow_p = 0.1
      fs = self.fs(plan)

      def body():
        self.set_cache(self.draw_cache())
        for _ in range(1 + ch.pick(2)):
          mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
          view = self.learn(mgr, hist_views)
          for _ in range(1 + ch.pick(3)):
            new = self.gen_bags(view, 1 + ch.pick(3), prefix=f'w{i}_')
            base = list(view.names)
            rec = [new, base, 'inflight']
            acked.append(rec)
            attempts[0] += 1
            sim.log('add', [b.name for b in new], 'on', base)
            try:
              mgr.add_bags(self.to_add(new))
            except Exception as e:  # pylint: disable=broad-except
              rec[2] = 'failed'
              sim.log('add-failed', type(e).__name__)
              self.check_view(mgr, view, 'stale-view')
              sim.probe('writer-refused')
              if ch.chance(0.6):
                break
              continue
            rec[2] = 'acked'
            view = View(view.bags + new)
            hist_views.append(view.bags)
            sim.log('acked', [b.name for b in new])
            self.check_view(mgr, view, 'own-write')
      return body

    def reader(i):
      fs = self.fs(None)

      def body():
        self.set_cache(self.draw_cache())
        for _ in range(1 + ch.pick(2)):
          mgr = self.env.dbm.DataBagManager.create_from_dir(DIR, fs=fs)
          names = self.names_of(mgr)
          sim.log('opened', sorted(names))
          facts = None
          for _ in range(1 + ch.pick(3)):
            if self.names_of(mgr) != names:
              raise core.Violation(
                  'snapshot', 'an open reader saw another instance\'s write')
            if names:
              f = storage_env.bag_facts(mgr.get_minimal_bag(names))
              if facts is not None and f != facts:
                raise core.Violation('snapshot', 'a reader\'s data changed')
              facts = f
          hist_reads.append((names, facts))
      return body

    hist_reads = []

    def main():
      first = self.env.dbm.DataBagManager.create_new(DIR, fs=self.clean_fs())
      base = View()
      if ch.chance(0.5):
        init = self.gen_bags(base, 1 + ch.pick(2), prefix='i')
        first.add_bags(self.to_add(init))
        base.bags.extend(init)
      self.all_bags = {b.name: b for b in base.bags}
      self.base = base
      ts = [sim.spawn(writer(i), name=f'W{i}', proc=self.proc('W'))
            for i in range(nw)]
      ts += [sim.spawn(reader(i), name=f'R{i}', proc=self.proc('R'))
             for i in range(nr)]
      self.join_all(ts)
      for t in ts:
        if t.state == core.CRASHED:
          sim.probe('writer-crashed')
      # What the directory finally holds must be a serial log of batches.
      mgr = self.env.dbm.DataBagManager.create_from_dir(
          DIR, fs=self.clean_fs())
      final = self.names_of(mgr)
      allbags = {b.name: b for b in base.bags}
      for new, _, _ in acked:
        for b in new:
          allbags[b.name] = b
      for new, basenames, st in acked:
        have = [b.name in final for b in new]
        if st == 'acked' and not all(have):
          raise core.Violation(
              'lost-update', f'acknowledged {[b.name for b in new]} on '
              f'{basenames} is missing from {sorted(final)}')
        if st == 'failed' and any(have):
          raise core.Violation(
              'phantom-update', f'refused {[b.name for b in new]} is visible')
        if any(have) != all(have):
          raise core.Violation('partial-commit', f'{new}')
      inlog = [r for r in acked if all(b.name in final for b in r[0])]
      inlog.sort(key=lambda r: len(r[1]))
      order = list(base.names)
      for new, basenames, _ in inlog:
        if basenames != order:
          raise core.Violation(
              'not-serial', f'batch {[b.name for b in new]} was committed on '
              f'top of {basenames}, but the log before it is {order}')
        order += [b.name for b in new]
      if set(order) != final:
        raise core.Violation(
            'phantom-update', f'log {order} vs directory {sorted(final)}')
      self.check_full(mgr, View([allbags[n] for n in order]), 'final')
      if attempts[0] and not inlog and not crashes:
        raise core.Violation(
            'no-progress', f'{attempts[0]} concurrent updates and none of '
            'them succeeded')
      # Every view any reader opened is a prefix of that log.
      prefixes = {}
      for k in range(len(order) + 1):
        prefixes[frozenset(order[:k])] = k
      for names, facts in hist_reads:
        k = prefixes.get(frozenset(names))
        if k is None:
          raise core.Violation(
              'not-a-snapshot', f'a reader opened {sorted(names)}; the log is '
              f'{order}')
        if facts is not None:
          v = View([allbags[n] for n in order[:k]])
          if facts != v.merged(self.kd, v.bags):
            raise core.Violation('read-wrong', f'{sorted(names)}')

    sim.run(main)

  def learn(self, mgr, hist_views):
    """The view an instance opened with; order recovered from known views."""
    names = self.names_of(mgr)
    for bags in [self.base.bags] + hist_views:
      if {b.name for b in bags} == names:
        return View(bags)
    # Committed by a writer that has not returned from add_bags yet (or never
    # will): the instance itself knows the order.
    order = mgr.canonical_topological_sorting(names)
    known = {b.name: b for v in [self.base.bags] + hist_views for b in v}
    return View([known.get(n) or _Unknown(n) for n in order])

  def check_view(self, mgr, view, what):
    if any(isinstance(b, _Unknown) for b in view.bags):
      if self.names_of(mgr) != set(view.names):
        raise core.Violation(what, 'the instance changed')
      return
    self.check_full(mgr, view, what)


class _Unknown:

  def __init__(self, name):
    self.name = name
    self.deps = ()


class BagReads(BagBase):
  """Closures, parallel loading and the shared cache: always the same answer."""
  trace_fraction = 0.25
  step_limit = 900_000

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    view = View()

    def main():
      t = sim.spawn(body, name='P', proc='P')
      self.env.cache.reset('P')
      self.join_all([t])

    def body():
      fs = self.clean_fs()
      self.set_cache(self.draw_cache())
      mgr = self.env.dbm.DataBagManager.create_new(DIR, fs=fs)
      for _ in range(1 + ch.pick(3)):
        new = self.gen_bags(view, 1 + ch.pick(4))
        mgr.add_bags(self.to_add(new))
        view.bags.extend(new)
        if ch.chance(0.5):
          self.check_query(mgr, view, 'read')
      # An unrelated manager that happens to use the same bag names, maybe one
      # that was removed and made again.
      twin, tview = None, View()
      twin_dir = ch.choice([TWIN, '/other/mgr'])
      generations = ch.choice([0, 1, 1, 2])
      for gen in range(generations):
        if gen:
          self.check_full(twin, tview, 'twin')
          for f in [f for f in self.store.files if f.startswith(twin_dir)]:
            del self.store.files[f]
          sim.probe('directory-made-again')
        twin, tview = (
            self.env.dbm.DataBagManager.create_new(twin_dir, fs=fs), View())
        for b in view.bags:
          if ch.chance(0.7):
            tview.bags.append(Bag(
                b.name,
                self.kd.attrs(ch.choice(self.objs), x=f't{gen}-{b.name}'),
                [d for d in b.deps if d in tview.names], None, None))
        if tview.bags:
          twin.add_bags(self.to_add(tview.bags))
      if ch.chance(0.5):
        self.env.cache.clear()

      # Threads of one process, each with its own instance, sharing the cache.
      def reader(i):
        def rbody():
          rfs = self.fs(simfs.FaultPlan(sim, slow_p=0.1))
          other = twin is not None and ch.chance(0.4)
          view = tview if other else trunk
          m = self.env.dbm.DataBagManager.create_from_dir(
              twin_dir if other else DIR, fs=rfs)
          for _ in range(1 + ch.pick(3)):
            if ch.chance(0.2):
              self.check_full(m, view, 'read')
            else:
              self.check_query(m, view, 'read')
            if ch.chance(0.15):
              self.set_cache(self.draw_cache())
            if ch.chance(0.1):
              self.env.cache.clear()
        return rbody
      n = 1 + ch.pick(3)
      trunk = view
      ts = [sim.spawn(reader(i), name=f'T{i}', proc='P') for i in range(n)]
      if ch.chance(0.3):
        bad = self.gen_bags(view, 1)
        self.check_rejects(mgr, view, bad)
      self.join_all(ts)
      self.check_full(mgr, view, 'read')
      self.check_deps(mgr, view, 'read')
      if twin is not None:
        self.check_full(twin, tview, 'twin')

    sim.run(main)


class BagBranches(BagBase):
  """Branches and extracts: complete, and independent of their origin."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch

    def main():
      t = sim.spawn(body, name='P', proc=self.proc())
      self.join_all([t])

    def body():
      self.set_cache(self.draw_cache())
      plan = simfs.FaultPlan(sim)
      fs = self.fs(plan)
      DBM = self.env.dbm.DataBagManager
      live = {DIR: (DBM.create_new(DIR, fs=fs), View())}
      n = 0
      for _ in range(4 + ch.pick(6)):
        d = ch.choice(sorted(live))
        mgr, view = live[d]
        op = ch.weighted([4, 3, 2, 2, 2])
        if op == 0:
          new = self.gen_bags(view, 1 + ch.pick(3), prefix=f'n{n}_')
          mgr.add_bags(self.to_add(new))
          live[d] = (mgr, View(view.bags + new))
        elif op in (1, 2) and view.bags:
          names = [b.name for b in view.bags if ch.chance(0.5)] or [
              ch.choice(view.bags).name]
          if ch.chance(0.4):
            names = view.names
          dep = ch.chance(0.3)
          n += 1
          # Stores live anywhere; different ones may have the same base name.
          out = ch.choice([f'/disk/out{n}', f'/disk/d{n}/mgr', f'/srv/{n}/mgr',
                           f'{DIR}-{n}'])
          if ch.chance(0.3):
            self.store.dirs.add(out)
          crash = ch.chance(0.35)
          call = mgr.create_branch if op == 1 else mgr.extract_bags
          kw = {'with_all_dependents': True} if dep else {}
          want = View(view.closure(names, dep))
          if crash:
            self.crash_copy(mgr, call, names, kw, out, want, op == 1, d, view)
            continue
          own = self.fs(simfs.FaultPlan(sim)) if ch.chance(0.4) else fs
          fs.touched.clear()
          call(names, output_dir=out, fs=own, **kw)
          if own is not fs and fs.touched_under(out):
            raise core.Violation(
                'wrong-file-system', f'{fs.touched_under(out)[:3]} not through '
                'the file system the copy was given')
          sim.log('branch' if op == 1 else 'extract', out, names)
          m2 = DBM.create_from_dir(out, fs=fs)
          self.check_full(m2, want, 'branch' if op == 1 else 'extract')
          self.check_deps(m2, want, 'branch' if op == 1 else 'extract')
          live[out] = (m2, want)
        elif op == 3:
          # A second branch into an occupied directory is refused.
          other = ch.choice(sorted(live))
          if ch.chance(0.4):
            self.check_foreign(mgr, view, fs, n)
          elif view.bags:
            try:
              mgr.create_branch(view.names, output_dir=other, fs=fs)
            except ValueError:
              pass
            else:
              raise core.Violation('clobbered', f'branch onto {other}')
        else:
          self.env.cache.clear()
          live[d] = (DBM.create_from_dir(d, fs=fs), view)
        # Everybody is exactly where they should be.
        for dd, (m, v) in sorted(live.items()):
          self.check_names(m, v, 'independence')
        dd = ch.choice(sorted(live))
        m, v = live[dd]
        self.check_full(m, v, 'independence')
      self.env.cache.clear()
      for dd, (_, v) in sorted(live.items()):
        self.check_full(DBM.create_from_dir(dd, fs=fs), v, 'independence')

    sim.run(main)

  def check_foreign(self, mgr, view, fs, n):
    """Nothing is created in a directory that holds anybody's data."""
    ch = self.ch
    other = f'/disk/foreign{n}'
    name = ch.choice(['notes.txt', 'bag-1.kd', 'metadata', 'data'])
    self.store.dirs.add(other)
    with self.clean_fs().open(f'{other}/{name}', 'wb') as f:
      f.write(b'precious')
    files = lambda: sorted(f for f in self.store.files if f.startswith(other))
    had = files()
    DBM = self.env.dbm.DataBagManager
    how = ch.pick(3) if view.bags else 0
    self.sim.probe('occupied-directory')
    try:
      if how == 0:
        DBM.create_new(other, fs=fs)
      elif how == 1:
        mgr.create_branch(view.names, output_dir=other, fs=fs)
      else:
        mgr.extract_bags(view.names, output_dir=other, fs=fs)
    except ValueError:
      with self.clean_fs().open(f'{other}/{name}', 'rb') as f:
        same = f.read() == b'precious'
      if files() != had or not same:
        raise core.Violation('clobbered', f'{other}: {files()}')
      return
    raise core.Violation('clobbered', f'created in {other}, which had {had}')

  def crash_copy(self, mgr, call, names, kw, out, want, is_branch, d, view):
    """A process dies while branching or extracting."""
    sim, ch = self.sim, self.ch
    plan = simfs.FaultPlan(sim)
    plan.crash_at = ch.pick(14)
    fs2 = self.fs(plan)
    DBM = self.env.dbm.DataBagManager

    def body():
      m = DBM.create_from_dir(d, fs=self.clean_fs())
      f = m.create_branch if is_branch else m.extract_bags
      f(names, output_dir=out, fs=fs2, **kw)

    t = sim.spawn(body, name='copier', proc=self.proc('copier'))
    sim.join(t)
    if t.exc is not None:
      raise core.Violation('copy-failed', f'{t.exc!r}')
    self.check_full(DBM.create_from_dir(d, fs=self.clean_fs()), view,
                    'origin-after-crash')
    if t.state != core.CRASHED:
      self.check_full(DBM.create_from_dir(out, fs=self.clean_fs()), want,
                      'copy')
      return
    try:
      m2 = DBM.create_from_dir(out, fs=self.clean_fs())
    except Exception:  # pylint: disable=broad-except
      return
    # Whatever can be opened is whole (an extract is allowed to be empty).
    if not is_branch and not self.names_of(m2):
      return
    self.check_full(m2, want, 'copy-after-crash')
