"""kd.dump and kd.load: files under refusals, errors, crashes and readers.

The oracle: a load gives a value that was dumped there, or fails; a dump that
is refused, or whose value cannot be serialised, leaves the file alone; a dump
that returns has written the value.
"""

from sim import core
from sim import simfs
from sim import storage_env
from sim.scenario import Scenario

PATHS = ['/disk/a.kd', '/disk/b.kd', '/disk/dir/c.kd']
OPTIONS = [None, None, 'snappy', 'brotli:9', 'uncompressed', 'bogus']


class Unserialisable:
  """A value that the serialiser cannot handle."""

  def __reduce__(self):
    raise TypeError('cannot serialise')


def facts(x):
  """What a value is, comparably."""
  if hasattr(x, 'contents'):
    return ('bag', x.mutable, x.contents())
  bag = x.get_bag()
  return ('slice', list(x._vals), x._dims, x._schema,
          None if bag is None else (bag.mutable, bag.contents()))


def dumped(x):
  """What a load of a dump of x has to be."""
  if hasattr(x, 'contents'):
    return facts(x)
  if x.get_bag() is None:
    return facts(x)
  y = x.extract()
  if x.get_bag().is_mutable():
    y = y.fork_bag()
  return facts(y)


class Dumps(Scenario):
  step_limit = 100_000
  step_limit_is_violation = True

  def setup(self):
    self.env = storage_env.setup()
    self.kd = self.env.kd
    self.s11n = self.kd.s11n
    self.world = None
    lib = self.s11n.arolla.s11n
    inner = lib.riegeli_dumps

    def riegeli_dumps(x, *a, **kw):
      options = kw.get('riegeli_options', '')
      core.current_sim().log('serialise', options)
      if options == 'bogus':
        raise ValueError('invalid riegeli options: bogus')
      if self.world.memory_p and self.world.sim.ch.chance(self.world.memory_p):
        self.world.sim.fault('no-memory')
        raise MemoryError()
      self.world.options[core.current_task()] = options
      return inner(x, **kw)
    lib.riegeli_dumps = riegeli_dumps

    def default():
      w = self.world
      w.default_used[core.current_task()] = True
      return w.fs_of[core.current_task()][0]
    from koladata.file_io import file_io
    file_io.get_default_file_system_interaction = default

  # -- values ----------------------------------------------------------------
  def value(self, ch):
    kd = self.kd
    self.n += 1
    n = self.n
    c = ch.pick(9)
    if c == 0:
      return kd.int32(n)
    if c == 1:
      return kd.slice([f's{n}', None, 'x' * ch.choice([1, 5000])])
    if c == 2:
      return kd.slice([[n, 2], [], [3]])
    if c == 3:
      return kd.new(x=n, child=kd.new(y=n + 1))
    if c == 4:
      big = kd.new(x=n, child=kd.list([n, n + 1]), other=kd.dict({'k': n}))
      # Only what is reachable from the slice is dumped.
      return big.child if ch.chance(0.5) else big
    if c == 5:
      x = kd.new(x=n)
      b = kd.mutable_bag()
      b._overlay(x.get_bag())
      return x.with_bag(b)
    if c == 6:
      return kd.attrs(ch.choice(self.objs), **{f'u{n}': n})
    if c == 7:
      b = kd.mutable_bag()
      b._overlay(kd.attrs(ch.choice(self.objs), z=n))
      return b
    return kd.dict({'a': n, 'b': 2})

  # -- the run ---------------------------------------------------------------
  def run(self, sim):
    ch = sim.ch
    self.sim, self.world = sim, self
    self.n = 0
    self.objs = [self.kd.new() for _ in range(2)]
    self.options, self.default_used, self.fs_of = {}, {}, {}
    self.memory_p = ch.choice([0.0, 0.0, 0.1])
    store = self.store = simfs.Store()
    store.dirs |= {'/disk', '/disk/dir'}
    # What a load of each path may give: facts by path.
    self.may = {p: [] for p in PATHS}
    paths = PATHS[:1 + ch.pick(len(PATHS))]
    for p in paths:
      if ch.chance(0.3):
        store.files[p] = b'not a dump' if ch.chance(0.5) else b''

    def main():
      for _ in range(1 + ch.pick(2)):
        tasks = []
        for p in paths:
          plan = simfs.swarm_plan(sim)
          proc = f'p{self.n}-{p}'
          self.n += 1
          tasks.append(sim.spawn(self.dumper(p, plan), name=f'D{p}', proc=proc))
        for i in range(ch.pick(3)):
          tasks.append(sim.spawn(self.loader(paths), name=f'L{i}'))
        for t in tasks:
          sim.join(t)
        for t in tasks:
          if isinstance(t.exc, (core.Violation, core.HarnessError)):
            raise t.exc
          if t.exc is not None:
            raise core.Violation('unexpected-exception',
                                 f'{t.name}: {type(t.exc).__name__}: {t.exc}')
          if t.state == core.CRASHED:
            sim.probe('crashed')
      # Without faults everything works again, on any leftovers.
      for p in paths:
        x = self.value(ch)
        fs = self.env.SimFS(sim, store, None)
        self.memory_p = 0
        self.use(fs, False)
        self.s11n.dump(x, p, overwrite=True, fs=fs)
        self.check_load(p, [dumped(x)], fs, True)
    sim.run(main)

  def use(self, fs, default):
    other = self.env.SimFS(self.sim, simfs.Store(), None)
    self.fs_of[core.current_task()] = (fs if default else other, fs)
    self.default_used[core.current_task()] = False
    return {} if default and self.sim.ch.chance(0.5) else (
        {'fs': None} if default else {'fs': fs})

  def check_fs(self, default, what):
    if not default and self.default_used[core.current_task()]:
      raise core.Violation('wrong-file-system',
                           f'{what} ignored the file system it was given')

  def dumper(self, path, plan):
    sim, ch, store = self.sim, self.sim.ch, self.store

    def body():
      for _ in range(1 + ch.pick(4)):
        fs = self.env.SimFS(sim, store, plan)
        default = ch.chance(0.3)
        x = self.value(ch)
        before = facts(x)
        kw = self.use(fs, default)
        opts = ch.choice(OPTIONS)
        if opts is not None:
          kw['riegeli_options'] = opts
        overwrite = ch.chance(0.6)
        if overwrite or ch.chance(0.3):
          kw['overwrite'] = overwrite
        bad = ch.pick(6)
        if bad == 0:
          x = ch.choice([1, 'text', None, object()])
        elif bad == 1 and hasattr(x, '_vals') and not x._dims:
          x = self.kd.slice([1])
          x._vals[0] = Unserialisable()
        else:
          bad = None
        cannot = bad is not None and bad < 2 or opts == 'bogus'
        old = store.files.get(path)
        refused = old is not None and not overwrite
        want = None
        if not cannot and not refused:
          want = dumped(x)
          self.may[path].append(want)
        sim.log('dump', path, overwrite, cannot, refused)
        try:
          self.s11n.dump(x, path, **kw)
        except (OSError, ValueError, TypeError, MemoryError) as e:
          sim.log('dump-failed', type(e).__name__)
          self.check_fs(default, 'dump')
          now = store.files.get(path)
          if (cannot or refused or isinstance(e, MemoryError)) and now != old:
            raise core.Violation(
                'refused-dump-changed-file',
                f'dump() to {path} failed with {type(e).__name__}: {e}; the '
                f'file had {size(old)}, it has {size(now)}')
          if (not cannot and not refused
              and not isinstance(e, (OSError, MemoryError))):
            raise core.Violation('wrong-error',
                                 f'dump(): {type(e).__name__}: {e}')
          if (isinstance(e, OSError) or isinstance(e, MemoryError)) \
              and not sim.faults:
            raise core.Violation('wrong-error',
                                 f'dump(): {type(e).__name__}: {e}')
          if refused and not cannot and not isinstance(
              e, (OSError, ValueError, MemoryError)):
            raise core.Violation('wrong-error',
                                 f'dump(): {type(e).__name__}: {e}')
          continue
        self.check_fs(default, 'dump')
        if refused:
          raise core.Violation('overwrote', f'dump() to {path}, which exists')
        if cannot:
          raise core.Violation('accepted', f'dump() of {type(x).__name__}')
        if self.options[core.current_task()] != (opts or 'snappy'):
          raise core.Violation(
              'wrong-options', f'riegeli_options={opts!r} became '
              f'{self.options[core.current_task()]!r}')
        sim.probe('dumped')
        if facts(x) != before:
          raise core.Violation('input-changed', 'dump() changed its argument')
        self.may[path][:] = [want] if not self.loading(path) else (
            self.may[path])
        self.check_load(path, [want], self.env.SimFS(sim, store, None), True)
    return body

  def loading(self, path):
    return getattr(self, '_loading', {}).get(path, 0)

  def check_load(self, path, may, fs, must):
    default = self.sim.ch.chance(0.3)
    kw = self.use(fs, default)
    try:
      got = facts(self.s11n.load(path, **kw))
    except (OSError, ValueError, EOFError) as e:
      self.check_fs(default, 'load')
      if must:
        raise core.Violation(
            'dump-lost', f'load({path}) after dump() gave '
            f'{type(e).__name__}: {e}') from None
      return
    self.check_fs(default, 'load')
    self.sim.probe('loaded')
    if got not in may:
      raise core.Violation('wrong-value',
                           f'load({path}) gave {got}, expected one of {may}')

  def loader(self, paths):
    ch = self.sim.ch

    def body():
      for _ in range(1 + ch.pick(4)):
        p = ch.choice(paths)
        fs = self.env.SimFS(self.sim, self.store,
                            simfs.swarm_plan(self.sim, crash=False))
        d = self.__dict__.setdefault('_loading', {})
        d[p] = d.get(p, 0) + 1
        try:
          self.check_load(p, self.may[p], fs, False)
        finally:
          d[p] -= 1
    return body


def size(data):
  return 'nothing' if data is None else f'{len(data)} bytes'
