"""DataSliceManagerView: views that follow their manager, filter and select.

Runs the real view on the real DataSliceManager (and, as a twin, on the
in-memory manager) over the simulated disk.  The oracle for reads is the
in-memory slice of scenarios/slices.py; the oracle for filter() is a direct
description of what must be left of the data, walking the path outwards.
"""

import re

from sim import core
from sim import minikd
from sim import simfs
from scenarios import slices
from scenarios.slices import Rev, ROOT, UTC, Upd, delta, entries, observe
from scenarios.slices import shallow

GONE = minikd.REMOVED


def _none(v):
  return None if v is GONE else v


class Conflict(Exception):
  """One entity would get two different values: not a meaningful request."""


class Expected:
  """What filter() leaves: overrides on top of the old data."""

  def __init__(self, attr, root_value):
    self.attr = attr
    self.root_value = root_value
    self.facts = {}


class Views(slices.Base):

  def setup(self):
    super().setup()
    from koladata.ext.storage import data_slice_manager_view as view_lib
    from koladata.ext.storage import simple_in_memory_data_slice_manager as sim_dm
    self.View = view_lib.DataSliceManagerView
    self.Simple = sim_dm.SimpleInMemoryDataSliceManager

  # -- the oracle of filter -----------------------------------------------------
  def kept(self, ds, path, keep):
    """Expected content after filtering ds at path; keep: one bool per item."""
    levels = [ds]
    for act in path.actions:
      levels.append(self.step(levels[-1], act))
    new = [('old', v) for v in levels[-1]._vals]
    facts = {}

    def fact(e, a, spec):
      if facts.setdefault((e, a), spec) != spec:
        raise Conflict()

    acts = list(path.actions)
    for i in range(len(acts) - 1, 0, -1):
      act, parent = acts[i], levels[i]
      n = type(act).__name__
      if n == 'GetAttr':
        for e, k, spec in zip(parent._vals, keep, new):
          if k and e is not None:
            fact(e, act.attr_name, spec)
        new = [('old', v) for v in parent._vals]
        continue
      sizes = levels[i + 1]._dims[-1]
      keys = parent.get_keys()._vals if n != 'ListExplode' else None
      vals = parent.get_values()._vals if n == 'DictGetKeys' else None
      pnew, pkeep, j = [], [], 0
      for size in sizes:
        idx = [x for x in range(j, j + size) if keep[x]]
        j += size
        if n == 'ListExplode':
          pnew.append(('list', tuple(new[x] for x in idx)))
        elif n == 'DictGetKeys':
          pnew.append(('dict', tuple((keys[x], ('old', vals[x]))
                                     for x in idx)))
        else:
          pnew.append(('dict', tuple((keys[x], new[x]) for x in idx)))
        pkeep.append(bool(idx))
      new, keep = pnew, pkeep
    exp = Expected(acts[0].attr_name, new[0] if keep[0] else ('old', None))
    exp.facts = facts
    return exp

  def mismatch(self, old, exp, got):
    """None if got is old with exp applied; otherwise what differs."""
    b0, b1 = old._bag, got._bag
    if shallow(got) != shallow(old):
      return f'root {shallow(got)}'
    todo = [(('old', v), g, old._schema, 'root')
            for v, g in zip(old._vals, got._vals)]
    root = old._vals[0]
    seen = set()
    while todo:
      spec, g, t, where = todo.pop()
      kind, v = spec
      types = b0.objs.get(t, {}) if isinstance(t, minikd.ItemId) else {}
      if kind == 'old':
        if g != v:
          return f'{where}: got {g!r}, want {v!r}'
        if v is None or not isinstance(t, minikd.ItemId) or (v, t) in seen:
          continue
        seen.add((v, t))
        if t.kind == 'SL':
          kind, v = 'list', tuple(('old', x) for x in b0.lists.get(v, ()))
        elif t.kind == 'SD':
          kind, v = 'dict', tuple((k, ('old', x))
                                  for k, x in b0.dicts.get(v, {}).items()
                                  if x is not GONE)
        else:
          for a, ta in types.items():
            if a.startswith('__') or ta is GONE:
              continue
            want = exp.facts.get((v, a), ('old', _none(b0.attr(v, a))))
            if v == root and a == exp.attr:
              want = exp.root_value
            todo.append((want, _none(b1.attr(v, a)), ta, f'{where}.{a}'))
          continue
      if kind == 'list':
        items = b1.lists.get(g) if isinstance(g, minikd.ItemId) else None
        if items is None or len(items) != len(v):
          return f'{where}: list {items!r}, want {v!r}'
        todo += [(s, x, types.get('__items__'), f'{where}[{i}]')
                 for i, (s, x) in enumerate(zip(v, items))]
      else:
        d = b1.dicts.get(g) if isinstance(g, minikd.ItemId) else None
        d = {k: x for k, x in (d or {}).items() if x is not GONE}
        want = {k: s for k, s in v if s != ('old', None)}
        if set(d) != set(want):
          return f'{where}: keys {sorted(map(str, d))}, want {sorted(map(str, want))}'
        todo += [(s, d[k], types.get('__values__'), f'{where}[{k!r}]')
                 for k, s in want.items()]
    return None

  def gen_mask(self, ds, path):
    """(mask slice, keep per item) or None."""
    ch = self.ch
    s = ds
    for act in path.actions:
      s = self.step(s, act)
    n = len(s._vals)
    how = ch.weighted([6, 1, 1, 2])
    if how == 1:
      return minikd._mk([minikd.PRESENT], (), minikd.P_MASK), [True] * n
    if how == 2:
      return minikd._mk([None], (), minikd.P_MASK), [False] * n
    dims = s._dims
    if how == 3 and dims:
      dims = dims[:ch.pick(len(dims))]
    p = ch.choice([0.3, 0.5, 0.85])
    vals = [minikd.PRESENT if ch.chance(p) else None
            for _ in range(minikd._size(dims))]
    keep = [v is not None for v in minikd._expand(vals, dims, s._dims)]
    if not all(keep) and any(k and v is None for k, v in zip(keep, s._vals)):
      # What becomes of a container of which only missing items are kept is
      # not documented.
      if dims != s._dims:
        return None
      keep = [k and v is not None for k, v in zip(keep, s._vals)]
      vals = [minikd.PRESENT if k else None for k in keep]
    return minikd._mk(vals, dims, minikd.P_MASK), keep

  def gen_update(self, ds):
    u = super().gen_update(ds)
    root = ds._bag.objs.get(ds._schema, {}) if ds._bag is not None else {}
    big = sorted(a for a, t in root.items() if not a.startswith('__')
                 and isinstance(t, minikd.ItemId))
    if big and self.ch.chance(0.2):
      u = Upd(self.Path.from_actions([]), self.ch.choice(big),
              self.prim(ds, 'int'), u.description)
    return u

  # -- richer values ------------------------------------------------------------
  def gen_value(self, ds, at):
    ch, kd = self.ch, self.kd
    if not ch.chance(0.4 if self.plural(ds) else 0.9):
      return super().gen_value(ds, at)
    base = 1000 * self.n
    cnt = [0]

    def tick():
      cnt[0] += 1
      return base + cnt[0]

    shape = ch.pick(4)

    doc_schema = kd.named_schema(
        f'doc{self.n}', t=kd.INT32,
        **({'k': kd.list_schema(self.foo)} if shape != 1 else
           {'k': kd.dict_schema(kd.STRING, self.foo)}),
        m=kd.list_schema(kd.INT32))

    def foos():
      return [self.foo.new(p=tick(), q=f'q{tick()}')
              for _ in range(ch.weighted([1, 2, 3]))]

    def doc():
      kw = {'t': tick()}
      fs = foos()
      if ch.chance(0.8):
        if shape == 1:
          kw['k'] = (kd.dict({f'k{i}': f for i, f in enumerate(fs)}) if fs
                     else kd.dict({}, key_schema=kd.STRING,
                                  value_schema=self.foo))
        else:
          kw['k'] = kd.list(fs, item_schema=self.foo)
      if ch.chance(0.6):
        kw['m'] = kd.list([tick() for _ in range(ch.pick(3))],
                          item_schema=kd.INT32)
      return doc_schema.new(**kw)

    docs = [doc() for _ in range(1 + ch.weighted([1, 3, 2]))]
    if shape == 2:
      return kd.dict({f'd{i}': d for i, d in enumerate(docs)})
    if shape == 3:
      return kd.list([kd.list([d], item_schema=doc_schema) if ch.chance(0.7)
                      else kd.list([], item_schema=doc_schema)
                      for d in docs])
    return kd.list(docs)

  # -- running ------------------------------------------------------------------
  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    self.rich = ch.chance(0.85)
    self.twin = None
    if ch.chance(0.4):
      self.twin = self.Simple()
      self.root_item = self.twin.get_data_slice()
    self.live = {}           # dir -> revisions
    self.known_paths = {}    # path string -> path, ever valid anywhere
    self.inflight = None     # (dir, Expected or Rev, entry, acknowledged)
    faulty = ch.chance(0.4)
    lives = 1 + (ch.pick(3) if ch.chance(0.4) else 0)

    def life(i):
      plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
      plan.enabled = False
      if i < lives - 1:
        plan.enabled = True
        plan.crash_at = ch.pick(ch.choice([60, 200, 500]))
      fs = self.fs(plan)

      def body():
        self.set_cache(self.draw_cache())
        if not self.live:
          m = self.create(ROOT, self.fs())
          self.live[ROOT] = [self.first_rev(m)]
        self.views = {}
        self.mgrs = {}
        for _ in range(4 + ch.pick(8)):
          self.one_step(fs, plan, faulty)
        for d in sorted(self.live):
          self.check_state(self.open(d, self.fs()), self.live[d], 'on-disk')
      return body

    def main():
      for i in range(lives):
        t = sim.spawn(life(i), name=f'L{i}', proc=self.proc('L'))
        sim.join(t)
        if t.exc is not None:
          self.join_all([t])
        if t.state == core.CRASHED:
          sim.probe('crashed')
          self.settle()
          for d in sorted(self.live):
            self.check_state(self.open(d, self.fs()), self.live[d],
                             'durability')

    sim.run(main)

  def settle(self):
    """After a crash or error: the operation happened or it did not."""
    if self.inflight is None:
      return
    d, what, entry, acked = self.inflight
    self.inflight = None
    revs = self.live[d]
    m = self.open(d, self.fs())
    n = len(m.get_revision_history(tz=UTC))
    if n == len(revs) and not acked:
      self.sim.probe('inflight-lost')
      self.check_state(m, revs, 'old-or-new')
    elif n == len(revs) + 1:
      self.sim.probe('inflight-kept')
      self.adopt(d, m, what, entry)
    else:
      raise core.Violation('partial-commit',
                           f'{n} revisions, {len(revs)} were acknowledged')

  def adopt(self, d, m, what, entry):
    """The operation must be visible in m; it becomes the newest revision."""
    revs = self.live[d]
    if isinstance(what, Expected):
      old = revs[-1].ds
      bad = self.mismatch(old, what, self.full(m))
      if bad:
        raise core.Violation('filter-result', bad)
      path = self.Path.from_actions([self.env.dsp.GetAttr(what.attr)])
      v = m.get_data_slice_at(path, with_all_descendants=True)
      u = Upd(self.Path.from_actions([]), what.attr, v, entry[1])
      nxt = self.next_rev(revs[-1], u)
      if nxt.entry() != entry:
        raise core.HarnessError(f'{nxt.entry()} {entry}')
    else:
      nxt = what
      u = what.update
    if d == ROOT and self.twin is not None:
      self.View(self.twin, u.path).update(u.attr, u.value)
    revs.append(nxt)
    for p, _ in self.all_paths(nxt.ds, 4):
      self.known_paths[p.to_string()] = p
    self.inflight = None
    if d == ROOT and self.twin is not None:
      self.check_twin()
    self.check_state(m, revs, 'acked')

  def check_twin(self):
    rev = self.live[ROOT][-1]
    got = observe(self.twin.get_data_slice())
    if got != rev.seen:
      raise core.Violation('in-memory-manager', delta(got, rev.seen))
    self.check_exists(self.twin, rev, 'in-memory-manager')
    self.check_schema(self.twin, rev, 'in-memory-manager')

  # -- one operation --------------------------------------------------------------
  def manager(self, d, fs):
    if d not in self.mgrs:
      self.mgrs[d] = self.open(d, fs)
      self.views[d] = []
    return self.mgrs[d]

  def some_path(self, d):
    """A path, usually valid now."""
    ch = self.ch
    paths = self.all_paths(self.live[d][-1].ds, 5)
    if ch.chance(0.3):
      now = {p.to_string() for p, _ in paths}
      gone = sorted(set(self.known_paths) - now)
      if gone:
        return self.known_paths[ch.choice(gone)]
    deep = [ps for ps in paths if len(ps[0].actions) > 2]
    if deep and ch.chance(0.6):
      return ch.choice(deep)[0]
    return ch.choice(paths)[0]

  def lookup(self, d, path):
    """The model's slice at path, or None if the path is not valid."""
    s = self.live[d][-1].ds
    for act in path.actions:
      t = s._schema
      n = type(act).__name__
      want = {'ListExplode': 'SL', 'DictGetKeys': 'SD',
              'DictGetValues': 'SD'}.get(n, 'S')
      if not isinstance(t, minikd.ItemId) or t.kind != want:
        return None
      if n == 'GetAttr':
        x = s._bag.objs.get(t, {}).get(act.attr_name)
        if x is None or x is GONE:
          return None
      s = self.step(s, act)
    return s

  def view(self, d, fs, path=None):
    """A view of path: a kept one, a new one, or one reached by navigation."""
    ch = self.ch
    m = self.manager(d, fs)
    kept = self.views[d]
    if path is None:
      if kept and ch.chance(0.5):
        gone = [v for v in kept
                if self.lookup(d, v.get_path_from_root()) is None]
        return ch.choice(gone if gone and ch.chance(0.5) else kept)
      path = self.some_path(d)
    how = ch.pick(3)
    if how == 0 or self.lookup(d, path) is None:
      try:
        v = self.View(m, path)
      except ValueError:
        if self.lookup(d, path) is not None:
          raise core.Violation('view', f'no view of the valid path {path}')
        # A view of a path that is no longer valid: made when it was.
        return None
      if self.lookup(d, path) is None:
        raise core.Violation('view', f'a view of the invalid path {path}')
    else:
      v = self.View(m)
      for act in path.actions:
        n = type(act).__name__
        if n == 'ListExplode':
          v = v[:] if how == 1 else v.get_list_items()
        elif n == 'DictGetKeys':
          v = v.get_dict_keys()
        elif n == 'DictGetValues':
          v = v.get_dict_values()
        elif how == 1 and act.attr_name.isidentifier():
          v = getattr(v, act.attr_name)
        else:
          v = v.get_attr(act.attr_name)
    if v.get_path_from_root() != path or v.get_manager() is not m:
      raise core.Violation('view', f'{v} for {path}')
    kept.append(v)
    return v

  def one_step(self, fs, plan, faulty):
    ch, sim = self.ch, self.sim
    d = ch.choice(sorted(self.live))
    arm = faulty and ch.chance(0.5)
    op = ch.weighted([4, 6, 4, 1, 1, 1])
    if op == 1:
      v = self.view(d, fs)
      if v is not None:
        self.check_view(d, v)
      return
    if op == 3:
      self.branch(d, fs, plan, arm)
      return
    if op == 4:
      if ch.chance(0.5):
        self.mgrs.pop(d, None)
        self.views.pop(d, None)
      else:
        self.env.cache.clear()
      return
    if op == 5:
      self.bad_call(d, fs)
      return
    revs = self.live[d]
    if op == 0 or len(revs) == 1:
      u = self.gen_update(revs[-1].ds)
      below = u.path.to_string() + '.' + u.attr
      below = [p for p, _ in self.all_paths(revs[-1].ds, 5)
               if p.to_string().startswith(below)]
      if below and ch.chance(0.8):
        # Views of what is about to be replaced.
        for _ in range(2):
          self.view(d, fs, ch.choice(below))
      v = self.view(d, fs, u.path)
      nxt = self.next_rev(revs[-1], u)
      nxt.update = u
      sugar = u.attr.isidentifier() and ch.chance(0.5)

      def call():
        if not sugar:
          if u.description is None:
            v.update(u.attr, u.value)
          else:
            v.update(u.attr, u.value, u.description)
        elif u.description is None:
          setattr(v, u.attr, u.value)
        else:
          setattr(v, u.attr, (u.value, u.description))
      sim.log('update', u)
      self.mutate(d, plan, arm, call, nxt, nxt.entry())
      return
    self.filter(d, fs, plan, arm)

  def plural(self, ds):
    """Paths with several items below the first level."""
    return [p for p, s in self.all_paths(ds, 5)
            if len(s._vals) > 1 and len(p.actions) > 1]

  def draw_filter(self, d, fs):
    ch = self.ch
    many = self.plural(self.live[d][-1].ds)
    if many and ch.chance(0.8):
      path = ch.choice(many)
    else:
      path = self.some_path(d)
    if not path.actions or self.lookup(d, path) is None:
      return None
    mk = self.gen_mask(self.live[d][-1].ds, path)
    if mk is None:
      return None
    mask, keep = mk
    try:
      exp = self.kept(self.live[d][-1].ds, path, keep)
    except Conflict:
      return None
    arg = mask
    if ch.chance(0.3):
      v0 = path

      def arg(v):
        if v.get_path_from_root() != v0:
          raise core.Violation('filter', f'the function got {v}')
        return mask
    return path, keep, exp, arg

  def filter(self, d, fs, plan, arm):
    ch, sim = self.ch, self.sim
    f = self.draw_filter(d, fs)
    if f is None:
      return
    path, keep, exp, arg = f
    kw = {}
    if ch.chance(0.5):
      kw['description'] = f'filter {self.n}'
    v = self.view(d, fs, path)
    sim.log('filter', path.to_string(), [int(k) for k in keep])
    desc = kw.get('description', f'Filtered items at path "{path}"')
    entry = ('update', desc, '', exp.attr)
    if all(keep):
      sim.probe('filter-keeps-all')
      self.mutate(d, plan, arm, lambda: v.filter(arg, **kw), None, None)
      return
    sim.probe('filter')
    sim.probe('filter-removes-some' if any(keep) else 'filter-removes-all')
    self.mutate(d, plan, arm, lambda: v.filter(arg, **kw), exp, entry)

  def arm(self, plan):
    ch = self.ch
    plan.enabled = True
    kinds = [k for k in simfs.KINDS if ch.chance(0.5)] or ['io-error']
    plan.p, plan.kinds, plan.fail_at = 0.0, kinds, None
    if ch.chance(0.7):
      plan.fail_at = (ch.pick(60), ch.choice(kinds))
    else:
      plan.p = ch.choice([0.02, 0.1])

  def disarm(self, plan):
    plan.p, plan.fail_at = 0.0, None
    plan.enabled = plan.crash_at is not None

  def mutate(self, d, plan, arm, call, what, entry):
    """Runs call(); afterwards the manager and the disk show what, or nothing."""
    m = self.mgrs[d]
    revs = self.live[d]
    if what is not None:
      self.inflight = (d, what, entry, False)
    if arm:
      self.arm(plan)
    try:
      call()
      ok = True
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if not arm:
        raise
      ok = False
      self.sim.log('failed', type(e).__name__)
    self.disarm(plan)
    if ok:
      if what is not None:
        self.inflight = (d, what, entry, True)
        self.adopt(d, m, what, entry)
      else:
        self.check_state(m, revs, 'no-op')
      self.check_state(self.open(d, self.fs()), revs, 'acked-on-disk')
      return
    self.sim.probe('failed-op')
    self.check_state(m, revs, 'failed-op')
    self.settle()
    self.mgrs.pop(d, None)
    self.views.pop(d, None)

  def branch(self, d, fs, plan, arm):
    """view.branch() and view.select(): the original stays as it is."""
    ch, sim = self.ch, self.sim
    if len(self.live) > 3:
      return
    revs = self.live[d]
    desc = f'b{self.n}' if ch.chance(0.5) else None
    kw = {} if desc is None else {'description': desc}
    f = self.draw_filter(d, fs) if ch.chance(0.7) else None
    if f is None:
      v = self.view(d, fs)
      if v is None or self.lookup(d, v.get_path_from_root()) is None:
        return
      call = lambda: v.branch(**kw)
      path = v.get_path_from_root()
    else:
      path, keep, exp, arg = f
      v = self.view(d, fs, path)
      call = lambda: v.select(arg, **kw)
    if arm:
      self.arm(plan)
    try:
      b = call()
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if not arm:
        raise
      self.disarm(plan)
      sim.log('failed', type(e).__name__)
      sim.probe('failed-branch')
      self.check_state(self.mgrs[d], revs, 'failed-branch')
      self.check_state(self.open(d, self.fs()), revs, 'failed-branch')
      return
    self.disarm(plan)
    if b.get_path_from_root() != path:
      raise core.Violation('branch-view', f'{b} for {path}')
    bm = b.get_manager()
    bd = bm.get_persistence_directory()
    if bd in self.live:
      raise core.Violation('branch-clobbered', bd)
    bdesc = desc or ''
    if f is not None and desc is not None:
      bdesc = f'Branch for "{desc}"'
    self.live[bd] = [Rev(revs[-1].ds, 'branch', bdesc, before=[revs[-1]])]
    self.mgrs[bd], self.views[bd] = bm, [b]
    if f is not None and not all(keep):
      sim.probe('select')
      entry = ('update', desc or f'Filtered items at path "{path}"', '',
               exp.attr)
      self.inflight = (bd, exp, entry, True)
      self.adopt(bd, bm, exp, entry)
    self.check_state(bm, self.live[bd], 'branch')
    self.check_state(self.open(bd, self.fs()), self.live[bd],
                     'branch-on-disk')
    self.check_state(self.mgrs[d], revs, 'branch-changed-original')

  # -- checks -----------------------------------------------------------------------
  def check_view(self, d, v):
    ch = self.ch
    path = v.get_path_from_root()
    s = self.lookup(d, path)
    if v.is_view_valid() != (s is not None):
      raise core.Violation('validity', f'{path}: {v.is_view_valid()}')
    self.check_ancestors(d, v, path)
    self.check_listing(d, v, path, s)
    if s is None:
      self.sim.probe('invalid-view')
      for what, f in [('get_schema', v.get_schema), ('get', v.get),
                      ('get_children', v.get_children),
                      ('update', lambda: v.update('a', self.kd.item(1))),
                      ('filter', lambda: v.filter(self.kd.present)),
                      ('branch', v.branch), ('[:]', lambda: v[:])]:
        self.refused(d, f'{what} of the invalid view {path}', f)
      return
    got, want = observe(v.get_schema()), observe(s.get_schema())
    if got != want:
      raise core.Violation('view-schema', f'{path}: ' + delta(got, want))
    self.check_children(d, v, path, s)
    rel = [(p, x) for p, x in self.all_paths_from(path, s, 3)]
    pop = [p for p, _ in rel if ch.chance(0.3)]
    pod = [p for p, _ in rel if ch.chance(0.1)]
    mk = lambda p: self.View(v.get_manager(), path.concat(p))
    kw = {}
    if pop or ch.chance(0.2):
      kw['populate'] = [mk(p) for p in pop]
    if pod or ch.chance(0.2):
      kw['populate_including_descendants'] = [mk(p) for p in pod]
    ds = (v.get if ch.chance(0.5) else v.get_data_slice)(**kw)
    if shallow(ds) != shallow(s):
      raise core.Violation('view-data', f'{path}: {shallow(ds)}, '
                           f'want {shallow(s)}')
    for p in pop + pod:
      g, w = ds, s
      for act in p.actions:
        g, w = self.step(g, act), self.step(w, act)
      if shallow(g) != shallow(w):
        raise core.Violation('view-data', f'{path} + {p}: {shallow(g)}, '
                             f'want {shallow(w)}')
      if p in pod and observe(g) != observe(w):
        raise core.Violation(
            'view-data', f'{path} + {p}: ' + delta(observe(g), observe(w)))

  def all_paths_from(self, path, s, depth):
    del path
    return self.all_paths(s, depth)

  def check_children(self, d, v, path, s):
    ch = self.ch
    m = v.get_manager()
    kids = [p for p, _ in self.all_paths(s, 1) if p.actions]
    want = [path.concat(p) for p in kids]
    got = v.get_children()
    if [c.get_path_from_root() for c in got] != want:
      raise core.Violation('children', f'{path}: {got}, want {want}')
    if got and (got[0] != self.View(m, want[0])
                or hash(got[0]) != hash(self.View(m, want[0]))
                or got[0] == v):
      raise core.Violation('equality', f'{got[0]}')
    n = 1 + ch.pick(3)
    all_ = {path.concat(p).to_string() for p, _ in self.all_paths(s, n)
            if p.actions}
    if ch.chance(0.5):
      keep = ch.choice([r'a', r'\[:\]$', r'k\d?', r'^\.b'])
      it = v.grep_descendants(keep, max_delta_depth=n)
      want = {p for p in all_ if re.search(keep, p)}
    else:
      bit = ch.pick(2)
      pred = lambda p: len(p) % 2 == bit
      it = v.find_descendants(
          lambda x: pred(x.get_path_from_root().to_string()),
          max_delta_depth=n)
      want = {p for p in all_ if pred(p)}
    paths = [x.get_path_from_root().to_string() for x in it]
    if sorted(paths) != sorted(want):
      raise core.Violation('descendants', f'{path}: {sorted(paths)}, want '
                           f'{sorted(want)}')

  def check_ancestors(self, d, v, path):
    n = len(path.actions)
    m = v.get_manager()
    if v.get_root() != self.View(m):
      raise core.Violation('ancestors', f'root of {path}')
    k = self.ch.pick(n + 1)
    up = self.Path.from_actions(list(path.actions[:n - k]))
    if self.lookup(d, up) is None:
      if k:
        self.refused(d, f'ancestor {k} of {path}', lambda: v.get_ancestor(k))
    else:
      a = [v.get_ancestor(k)]
      if k == 1:
        a.append(v.get_parent())
      if k == 2:
        a.append(v.get_grandparent())
      for x in a:
        if x.get_path_from_root() != up or x.get_manager() is not m:
          raise core.Violation('ancestors', f'{x}: {k} up from {path}')
    self.refused(d, 'too far up', lambda: v.get_ancestor(n + 1))
    self.refused(d, 'negative', lambda: v.get_ancestor(-1))
    if n < 1:
      self.refused(d, 'no parent', v.get_parent)
    if n < 2:
      self.refused(d, 'no grandparent', v.get_grandparent)

  def check_listing(self, d, v, path, s):
    """What IPython offers is what is there."""
    names = set(getattr(v, '__all__'))
    n = len(path.actions)
    up = lambda k: self.lookup(
        d, self.Path.from_actions(list(path.actions[:n - k]))) is not None
    kind = (s._schema.kind if s is not None
            and isinstance(s._schema, minikd.ItemId) else None)
    want = {
        'get_root': True, 'is_view_valid': True,
        'get_parent': n >= 1 and up(1), 'get_grandparent': n >= 2 and up(2),
        'get': s is not None, 'get_schema': s is not None,
        'branch': s is not None,
        'get_list_items': kind == 'SL', 'get_dict_keys': kind == 'SD',
        'get_dict_values': kind == 'SD', 'update': kind == 'S',
        'filter': s is not None and n > 0, 'select': s is not None and n > 0}
    attrs = ()
    if kind == 'S':
      attrs = {a for a, t in s._bag.objs.get(s._schema, {}).items()
               if not a.startswith('__') and t is not GONE}
    for a in ('a', 'b', 'c', 'd', 'p', 'q', 'e f'):
      want[a] = a in attrs and a.isidentifier()
    for a, w in want.items():
      if (a in names) != w:
        raise core.Violation('listing', f'{path}: {a} listed: {a in names}')

  def refused(self, d, what, f):
    try:
      f()
    except ValueError:
      return
    raise core.Violation('accepted-invalid', what)

  def bad_call(self, d, fs):
    ch = self.ch
    v = self.view(d, fs)
    if v is None:
      return
    path = v.get_path_from_root()
    s = self.lookup(d, path)
    kind = (s._schema.kind if s is not None
            and isinstance(s._schema, minikd.ItemId) else None)
    before = self.store.listing()
    self.refused(d, 'filter of the root',
                 lambda: v.get_root().filter(self.kd.missing))
    if kind != 'SL':
      self.refused(d, f'[:] of {path}', v.get_list_items)
    if kind != 'SD':
      self.refused(d, f'keys of {path}', v.get_dict_keys)
      self.refused(d, f'values of {path}', v.get_dict_values)
    self.refused(d, f'{path}.nope', lambda: v.get_attr('nope'))
    self.refused(d, '[1]', lambda: v[1])
    if kind != 'S':
      self.refused(d, f'update of {path}',
                   lambda: v.update('a', self.kd.item(1)))
    try:
      setattr(v, 'get_attr', self.kd.item(1))
    except AttributeError:
      pass
    else:
      if not minikd._compliant('get_attr'):
        raise core.Violation('accepted-invalid', 'set get_attr')
      raise core.HarnessError('get_attr was set')
    if self.store.listing() != before:
      raise core.Violation('refused-but-written',
                           f'{set(self.store.listing()) ^ set(before)}')
    self.check_state(self.mgrs[d], self.live[d], 'refused')
