"""DataSliceManager under crashes, faults, concurrent processes and branching.

The oracle is vanilla in-memory Koda (mini-kd): a revision is the immutable
slice obtained by applying the acknowledged updates one after the other.
"""

import datetime

from sim import core
from sim import minikd
from sim import simfs
from sim import storage_env
from sim.scenario import Scenario

ROOT = '/disk/dsm'
UTC = datetime.timezone.utc

# known_findings.json: after the type of an attribute was overwritten, loads
# that do not ask for that attribute can still contain its old value.
RETYPED = 'stale-value-of-retyped-attribute'


def observe(ds):
  """Everything a user can reach from ds, canonically."""
  b = ds._bag if ds._bag is not None else minikd.DataBag()
  objs, lists, dicts = minikd._extract(ds._vals, ds._schema, b).contents()
  gone = minikd.REMOVED
  return (list(ds._vals), ds._dims, ds._schema,
          {k: v for k, v in objs.items() if v is not gone and v is not None},
          lists,
          {k: v for k, v in dicts.items() if v is not gone and v is not None})


def shallow(ds):
  return (list(ds._vals), ds._dims, ds._schema)


def delta(got, want):
  out = []
  for name, g, w in zip(('vals', 'dims', 'schema', 'facts', 'lists', 'dicts'),
                        got, want):
    if isinstance(g, dict):
      for k in set(g) | set(w):
        if g.get(k) != w.get(k):
          out.append(f'{name} {k}: got {g.get(k)!r}, want {w.get(k)!r}')
    elif g != w:
      out.append(f'{name}: got {g!r}, want {w!r}')
  return '; '.join(sorted(out)[:4])


class Rev:
  """One revision: the slice and the public history entry."""

  def __init__(self, ds, kind, description, at_path=None, attr=None,
               before=()):
    self.ds = ds
    # (schema, attribute) pairs whose type was overwritten at some point.
    self.retyped = set()
    # Every value a fact ever had, in the revisions this one builds upon.
    self.past = {}
    new = self.schemas()
    for r in before:
      self.retyped |= r.retyped
      for k, t in r.schemas().items():
        if k in new and new[k] != t:
          self.retyped.add(k)
      for k, vs in r.past.items():
        self.past.setdefault(k, set()).update(vs)
      for k, v in r.facts():
        self.past.setdefault(k, set()).add(v)
    self.kind = kind
    self.description = description
    self.at_path = at_path
    self.attr = attr
    self.seen = observe(ds)

  def facts(self):
    if self.ds._bag is None:
      return
    for o, attrs in self.ds._bag.objs.items():
      for a, v in attrs.items():
        yield (o, a), v

  def schemas(self):
    return {k: v for k, v in self.facts()
            if k[0].kind == 'S' and not k[1].startswith('__')
            and v is not minikd.REMOVED}

  def entry(self):
    return (self.kind, self.description, self.at_path, self.attr)


def entries(mgr):
  out = []
  for r in mgr.get_revision_history(tz=UTC):
    kind = {'CreationMetadata': 'creation',
            'AttributeUpdateMetadata': 'update',
            'BranchMetadata': 'branch'}[type(r).__name__]
    out.append((kind, r.description, getattr(r, 'at_path', None),
                getattr(r, 'attr_name', None)))
  return out


class Upd:

  def __init__(self, path, attr, value, description):
    self.path, self.attr, self.value = path, attr, value
    self.description = description

  def __repr__(self):
    return f'{self.path.to_string()!r}.{self.attr}={self.value!r}'[:120]


class Base(Scenario):
  step_limit = 600_000
  trace_fraction = 0.0

  def setup(self):
    self.env = storage_env.setup()
    self.kd = self.env.kd
    self.DSM = self.env.dsm.DataSliceManager
    self.Path = self.env.dsp.DataSlicePath

  def make_sim(self, choices):
    traced = choices.chance(self.trace_fraction) if self.trace_fraction else 0
    sim = core.Sim(choices, step_limit=self.step_limit,
                   trace_roots=self.trace_roots if traced else ())
    sim.traced = bool(traced)
    sim.choose_gap_mode()
    return sim

  def begin(self, sim):
    self.sim, self.ch = sim, sim.ch
    self.store = simfs.Store()
    self.store.dirs.add('/disk')
    self.nproc = 0
    self.n = 0
    self.typed = {}
    kd = self.kd
    self.root_item = kd.new()
    self.foo = kd.named_schema('foo', p=kd.INT32, q=kd.STRING)
    self.node = kd.named_schema('node', v=kd.INT32)
    self.shared = {self.foo._vals[0], self.node._vals[0]}
    self.rich = self.ch.chance(0.7)

  # -- processes ----------------------------------------------------------------
  def proc(self, name='p'):
    self.nproc += 1
    p = f'{name}#{self.nproc}'
    self.env.cache.reset(p)
    return p

  def fs(self, plan=None):
    return self.env.SimFS(self.sim, self.store, plan)

  def draw_cache(self):
    return self.ch.choice([1 << 30, 0, 400, 3000])

  def set_cache(self, n):
    self.env.cache.set_max_total_bytes_of_entries_in_cache(n)

  def create(self, d, fs):
    kw = {}
    if self.ch.chance(0.3):
      kw['description'] = 'made by the harness'
    m = self.DSM.create_new(
        d, fs=fs, initial_data_manager=self.env.bare.BareRootInitialDataManager
        .create_new(self.root_item), **kw)
    return m

  def first_rev(self, m=None):
    desc = entries(m)[0][1] if m is not None else None
    return Rev(self.root_item, 'creation', desc)

  def open(self, d, fs, **kw):
    return self.DSM.create_from_dir(d, fs=fs, **kw)

  def join_all(self, tasks):
    for t in tasks:
      self.sim.join(t)
    for t in tasks:
      if isinstance(t.exc, (core.Violation, core.HarnessError)):
        raise t.exc
      if t.exc is not None:
        import traceback
        tb = ''.join(traceback.format_exception(t.exc))[-900:]
        raise core.Violation(
            'unexpected-exception',
            f'{t.name}: {type(t.exc).__name__}: {t.exc} {tb}')

  # -- model --------------------------------------------------------------------
  def entity_paths(self, ds, max_depth=3):
    """(path, slice) for every path with an entity schema."""
    out = [(p, s) for p, s in self.all_paths(ds, max_depth)
           if isinstance(s._schema, minikd.ItemId) and s._schema.kind == 'S']
    return out

  def all_paths(self, ds, max_depth=3):
    """Walks the schema of the model; independent of the repository's walker."""
    P = self.Path
    dsp = self.env.dsp
    out = []

    def walk(path, s, depth):
      out.append((path, s))
      if depth >= max_depth or not isinstance(s._schema, minikd.ItemId):
        return
      k = s._schema.kind
      if k == 'SL':
        acts = [dsp.ListExplode()]
      elif k == 'SD':
        acts = [dsp.DictGetKeys(), dsp.DictGetValues()]
      else:
        names = sorted(
            a for a, t in s._bag.objs.get(s._schema, {}).items()
            if not a.startswith('__') and t is not minikd.REMOVED)
        acts = [dsp.GetAttr(a) for a in names]
      for a in acts:
        walk(path.extended_with_action(a), self.step(s, a), depth + 1)

    walk(P.from_actions([]), ds, 0)
    return out

  def step(self, s, act):
    n = type(act).__name__
    if n == 'ListExplode':
      return s.explode()
    if n == 'DictGetKeys':
      return s.get_keys()
    if n == 'DictGetValues':
      return s.get_values()
    return s.get_attr(act.attr_name)

  def apply(self, ds, u):
    at = ds
    for act in u.path.actions:
      at = self.step(at, act)
    v = u.value
    return ds.updated(self.kd.attrs(
        at, overwrite_schema=True, **{u.attr: v}))

  def gen_update(self, ds):
    ch, kd = self.ch, self.kd
    paths = self.entity_paths(ds)
    path, at = ch.choice(paths)
    if ch.chance(0.3):
      path, at = paths[0]
    sid = at._schema
    have = {a: t for a, t in at._bag.objs.get(sid, {}).items()
            if not a.startswith('__') and t is not minikd.REMOVED}
    attr = ch.choice(['a', 'b', 'c', 'd', 'e f'])
    if have and ch.chance(0.4):
      attr = ch.choice(sorted(have))
    self.n += 1
    fixed = have.get(attr) if sid in self.shared else None
    if fixed is not None:
      value = self.of_type(fixed, at)
      if value is None:
        attr = f'n{self.n}'
        value = self.gen_value(ds, at)
    else:
      value = self.gen_value(ds, at)
    old = have.get(attr)
    if old is not None and value._schema != old:
      # A new type for only some of the entities would leave the others with
      # values that do not have the type of the attribute.
      if any(t == sid and v not in at._vals for v, t in self.pairs(ds)):
        attr = f'n{self.n}'
    desc = f'step {self.n}' if ch.chance(0.7) else None
    return Upd(path, attr, value, desc)

  def of_type(self, t, at):
    if t is minikd.P_INT32:
      return self.prim(at, 'int')
    if t is minikd.P_STRING:
      return self.prim(at, 'str')
    return None

  def prim(self, at, what):
    ch, kd = self.ch, self.kd
    n = minikd._size(at._dims)
    mk = (lambda i: 100 * self.n + i) if what == 'int' else (
        lambda i: f's{self.n}.{i}')
    schema = minikd.P_INT32 if what == 'int' else minikd.P_STRING
    if at._dims and ch.chance(0.7):
      vals = [None if ch.chance(0.2) else mk(i) for i in range(n)]
      return minikd._mk(vals, at._dims, schema)
    if ch.chance(0.08):
      return minikd._mk([None], (), schema)
    return minikd._mk([mk(0)], (), schema)

  def gen_value(self, ds, at):
    ch, kd = self.ch, self.kd
    k = self.n
    kind = ch.weighted([4, 3, 3, 2, 2, 2, 2, 2, 1, 3] if self.rich
                       else [4, 2, 2, 1, 0, 0, 1, 0, 0, 0])
    if kind == 0:
      return self.prim(at, ch.choice(['int', 'str']))
    if kind == 1:
      if ch.chance(0.5):
        return kd.new(p=k, q=f'q{k}')
      return kd.new(p=self.prim(at, 'int'))
    if kind == 2:
      p = self.prim(at, 'int')
      return self.foo.new(p=p, q=f'q{k}')
    if kind == 3:
      return kd.list([k, k + 1, k + 2][:1 + ch.pick(3)])
    if kind == 4:
      return kd.list([self.foo.new(p=k, q='x'), self.foo.new(p=k + 1, q='y')])
    if kind == 5:
      if ch.chance(0.5):
        return kd.dict({'k1': k, f'k{k}': k + 1})
      return kd.dict({'k1': self.foo.new(p=k, q='d')})
    if kind == 6:
      # Alias something that is already there.
      cands = [s for p, s in self.all_paths(ds)
               if not s._dims and isinstance(s._schema, minikd.ItemId)
               and s._vals[0] is not None]
      v = ch.choice(cands)
      return v
    if kind == 7:
      e = kd.new(v=kd.new(w=kd.slice([k, k + 1])).implode(), t=f't{k}')
      return e if ch.chance(0.5) else kd.new(inner=e, z=k)
    if kind == 9:
      # Several pieces that share types in one value.
      return kd.new(**{a: self.piece(i) for i, a in enumerate('dlmxz')
                       if ch.chance(0.5)}, k=k)
    # A recursive schema.
    n1 = self.node.new(v=k)
    n2 = self.node.new(v=k + 1).with_attrs(next=n1)
    return n2

  def piece(self, i):
    ch, kd = self.ch, self.kd
    k = 1000 * self.n + 10 * i
    foo = lambda j: self.foo.new(p=k + j, q=f'q{k + j}')
    kind = ch.pick(8)
    if kind == 0:
      return k
    if kind == 1:
      return foo(0)
    if kind == 2:
      return kd.list([foo(j) for j in range(1 + ch.pick(2))])
    if kind == 3:
      return kd.dict({f'k{j}': foo(j) for j in range(1 + ch.pick(2))})
    if kind == 4:
      return kd.dict({k + j: foo(j) for j in range(1 + ch.pick(2))})
    if kind == 5:
      return kd.new(u=foo(0), w=k)
    if kind == 6:
      return kd.dict({f'k{j}': k + j for j in range(1 + ch.pick(2))})
    return self.node.new(v=k)

  def do_update(self, m, u):
    kw = {} if u.description is None else {'description': u.description}
    m.update(at_path=u.path, attr_name=u.attr, attr_value=u.value, **kw)

  def next_rev(self, rev, u):
    return Rev(self.apply(rev.ds, u), 'update', u.description or '',
               u.path.to_string(), u.attr, before=[rev])

  # -- checks -------------------------------------------------------------------
  def full(self, m):
    return m.get_data_slice(
        populate_including_descendants={self.Path.from_actions([])})

  def check_state(self, m, revs, what, history=True):
    """m shows exactly the last of revs (and that history)."""
    got = observe(self.full(m))
    want = revs[-1].seen
    if got != want:
      raise core.Violation(what, f'revision {len(revs) - 1}: '
                           + delta(got, want))
    self.check_schema(m, revs[-1], what)
    if history:
      h = entries(m)
      w = [r.entry() for r in revs]
      if h != w:
        raise core.Violation(
            what + '-history', f'history {h}, expected {w}')

  def check_schema(self, m, rev, what):
    s = m.get_schema()
    got = observe(s)
    want = observe(rev.ds.get_schema())
    if got != want:
      raise core.Violation(what + '-schema', delta(got, want))

  def check_partial(self, m, rev, what):
    """One partial read compared with the reference slice."""
    ch = self.ch
    paths = self.all_paths(rev.ds)
    mode = ch.pick(4)
    if mode == 0:
      p, s = ch.choice(paths)
      desc = ch.chance(0.4)
      got = m.get_data_slice_at(p, with_all_descendants=True) if desc else (
          m.get_data_slice_at(p))
      if desc and observe(got) != observe(s):
        raise core.Violation(
            what, f'get_data_slice_at({p}, with_all_descendants): '
            + delta(observe(got), observe(s)))
      if shallow(got) != shallow(s):
        raise core.Violation(
            what, f'get_data_slice_at({p}): {shallow(got)} want {shallow(s)}')
      self.check_valid(got, rev, what)
      return
    pop = [ps for ps in paths if ch.chance(0.3)]
    pod = [ps for ps in paths if ch.chance(0.15)] if mode == 2 else []
    if mode == 3 and len(pop) >= 2:
      # Two loads combine into one.
      a, b = pop[:len(pop) // 2], pop[len(pop) // 2:]
      ds = m.get_data_slice(populate={p for p, _ in a}).updated(
          m.get_data_slice(populate={p for p, _ in b}).get_bag())
    else:
      ds = m.get_data_slice(
          populate={p for p, _ in pop},
          populate_including_descendants={p for p, _ in pod})
    for p, s in pop:
      got = ds
      try:
        for act in p.actions:
          got = self.step(got, act)
      except (ValueError, AttributeError) as e:
        if mode == 3 and self.via_retyped(rev, p):
          self.sim.known(RETYPED, f'path {p}: {e}')
          continue
        raise core.Violation(what, f'populated path {p} is missing: {e}')
      if shallow(got) != shallow(s):
        msg = f'populate {p}: {shallow(got)} want {shallow(s)}'
        if mode == 3 and self.via_retyped(rev, p):
          self.sim.known(RETYPED, msg)
          continue
        raise core.Violation(what, msg)
    for p, s in pod:
      got = ds
      try:
        for act in p.actions:
          got = self.step(got, act)
      except ValueError as e:
        raise core.Violation(what, f'populated path {p} is missing: {e}')
      if observe(got) != observe(s):
        raise core.Violation(
            what, f'populate {p} with descendants: '
            + delta(observe(got), observe(s)))
    self.check_valid(ds, rev, what)

  def check_valid(self, ds, rev, what):
    """Whatever was loaded is up to date."""
    b = rev.ds._bag
    _, _, _, facts, lists, dicts = observe(ds)
    for (o, a), v in facts.items():
      if a in ('__schema_name__', '__schema_metadata__', '__schema__'):
        continue
      w = b.attr(o, a)
      if w is minikd.REMOVED:
        w = None
      if w != v:
        msg = f'{o}.{a} is {v!r}, the current value is {w!r}'
        if self.retyped(rev, o, a) and v in rev.past.get((o, a), ()):
          self.sim.known(RETYPED, msg)
          continue
        raise core.Violation(what + '-stale', msg)
    for l, v in lists.items():
      if b.lists.get(l) != v:
        raise core.Violation(what + '-stale', f'list {l}: {v!r}')
    for (d, k), v in dicts.items():
      w = b.dicts.get(d, {}).get(k)
      if w != v:
        raise core.Violation(what + '-stale', f'dict {d}[{k!r}]: {v!r} {w!r}')

  def retyped(self, rev, o, a):
    """Was the type of this attribute overwritten with another type?"""
    if (o, a) in rev.retyped:
      return True
    return any(b == a and self.has_schema(rev, o, s) for s, b in rev.retyped)

  def has_schema(self, rev, o, s):
    cur = rev
    key = id(cur)
    if key not in self.typed:
      self.typed[key] = (cur, self.pairs(cur.ds))
    return (o, s) in self.typed[key][1]

  def via_retyped(self, rev, path):
    s = rev.ds
    for act in path.actions:
      if (s._schema, getattr(act, 'attr_name', None)) in rev.retyped:
        return True
      s = self.step(s, act)
    return False

  def pairs(self, ds):
    """All (item, schema) pairs that can be reached."""
    b = ds._bag
    todo = [(v, ds._schema) for v in ds._vals]
    seen = set()
    while todo:
      v, t = todo.pop()
      if (not isinstance(v, minikd.ItemId) or not isinstance(t, minikd.ItemId)
          or (v, t) in seen):
        continue
      seen.add((v, t))
      types = b.objs.get(t, {})
      if t.kind == 'SL':
        todo += [(x, types.get('__items__')) for x in b.lists.get(v, ())]
      elif t.kind == 'SD':
        for k, x in b.dicts.get(v, {}).items():
          todo += [(k, types.get('__keys__')), (x, types.get('__values__'))]
      else:
        todo += [(b.attr(v, a), ta) for a, ta in types.items()]
    return seen

  def check_exists(self, m, rev, what):
    want = {p.to_string() for p, _ in self.all_paths(rev.ds, 2)}
    got = {p.to_string() for p in m.generate_paths(max_depth=2)}
    if got != want:
      raise core.Violation(
          what + '-paths', f'generate_paths: {sorted(got ^ want)}')
    for p, _ in self.all_paths(rev.ds, 2):
      if not m.exists(p):
        raise core.Violation(what + '-paths', f'{p} does not exist')


class Crash(Base):
  """Process crashes at any point of create/update/branch."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    self.revs = []
    st = {'created': False, 'inflight': None}

    def life(last):
      plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
      if not last:
        plan.crash_at = ch.pick(40 if ch.chance(0.5) else 150)
      fs = self.fs(plan)

      def body():
        self.set_cache(self.draw_cache())
        if not st['created']:
          st['inflight'] = 'create'
          m = self.create(ROOT, fs)
          st['created'], st['inflight'] = True, None
          self.revs = [self.first_rev(m)]
        else:
          m = self.open(ROOT, fs)
          self.settle(m, st)
          self.check_state(m, self.revs, 'durability')
        for _ in range(1 + ch.pick(3)):
          u = self.gen_update(self.revs[-1].ds)
          nxt = self.next_rev(self.revs[-1], u)
          st['inflight'] = nxt
          sim.log('update', u)
          self.do_update(m, u)
          st['inflight'] = None
          self.revs.append(nxt)
          sim.log('acked')
          if ch.chance(0.3):
            self.check_partial(m, self.revs[-1], 'read-after-write')
        self.check_state(m, self.revs, 'own-state')
      return body

    def main():
      lives = 1 + ch.pick(2)
      for i in range(lives + 1):
        t = sim.spawn(life(i == lives), name=f'L{i}', proc=self.proc('L'))
        sim.join(t)
        if isinstance(t.exc, (core.Violation, core.HarnessError)):
          raise t.exc
        if t.exc is not None:
          raise core.Violation(
              'unusable-after-crash',
              f'{type(t.exc).__name__}: {t.exc} (no I/O fault was injected)')
        if t.state == core.CRASHED:
          sim.probe('crashed')
          if st['inflight'] == 'create':
            self.retry_create(st)
          if st['created']:
            m = self.open(ROOT, self.fs())
            self.settle(m, st)
            self.check_state(m, self.revs, 'durability')
            self.check_exists(m, self.revs[-1], 'durability')

    sim.run(main)

  def retry_create(self, st):
    try:
      m = self.open(ROOT, self.fs())
    except Exception:  # pylint: disable=broad-except
      for f in [f for f in self.store.files if f.startswith(ROOT)]:
        del self.store.files[f]
      self.store.dirs = {d for d in self.store.dirs if not d.startswith(ROOT)}
      st['inflight'] = None
      return
    self.sim.probe('create-survived')
    self.revs = [self.first_rev(m)]
    self.check_state(m, self.revs, 'half-created')
    st['created'], st['inflight'] = True, None

  def settle(self, m, st):
    nxt = st['inflight']
    if not isinstance(nxt, Rev):
      return
    n = len(m.get_revision_history(tz=UTC))
    if n == len(self.revs):
      self.sim.probe('inflight-lost')
    elif n == len(self.revs) + 1:
      self.sim.probe('inflight-kept')
      self.revs.append(nxt)
    else:
      raise core.Violation(
          'partial-commit', f'{n} revisions after the crash, '
          f'{len(self.revs)} were acknowledged')
    st['inflight'] = None


class Faults(Base):
  """An update that raises has not happened; a retry works."""
  trace_fraction = 0.15

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    plan = simfs.FaultPlan(sim, visible_on_close=ch.chance(0.3))
    kinds = [k for k in simfs.KINDS if ch.chance(0.5)] or ['io-error']
    fs = self.fs(plan)

    def arm():
      plan.enabled = True
      plan.p, plan.kinds, plan.fail_at = 0.0, kinds, None
      if ch.chance(0.7):
        plan.fail_at = (ch.pick(45), ch.choice(kinds))
      else:
        plan.p = ch.choice([0.02, 0.1])

    def body():
      self.set_cache(self.draw_cache())
      plan.enabled = False
      m = self.create(ROOT, fs)
      revs = [self.first_rev(m)]
      for _ in range(2 + ch.pick(3)):
        op = ch.weighted([5, 2, 2])
        if op == 1:
          if ch.chance(0.5):
            m = self.open(ROOT, fs)
          if ch.chance(0.5):
            self.env.cache.clear()
          arm()
          try:
            self.check_partial(m, revs[-1], 'faulty-read')
          except core.Violation:
            raise
          except Exception as e:  # pylint: disable=broad-except
            sim.log('read-failed', type(e).__name__)
            sim.probe('failed-read')
          plan.enabled = False
          self.check_state(m, revs, 'after-failed-read')
          continue
        if op == 2:
          self.bad_update(m, revs)
          continue
        u = self.gen_update(revs[-1].ds)
        nxt = self.next_rev(revs[-1], u)
        interrupt = sim.traced and ch.chance(0.7)
        t = core.current_task()
        if interrupt:
          sim.fault('interrupt')
          self.arm_interrupt(t)
        else:
          arm()
        note = False
        try:
          self.do_update(m, u)
          ok = True
        except core.Violation:
          raise
        except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-except
          ok = False
          note = any('inconsistent' in n for n in getattr(e, '__notes__', ()))
          sim.log('update-failed', type(e).__name__, u)
        plan.enabled = False
        self.disarm_interrupt(t)
        d = self.open(ROOT, self.fs())
        nd = len(d.get_revision_history(tz=UTC))
        if ok:
          revs.append(nxt)
          self.check_state(m, revs, 'acked')
          self.check_state(d, revs, 'acked-on-disk')
          continue
        sim.probe('failed-update')
        if nd == len(revs):
          self.check_state(d, revs, 'failed-on-disk')
        elif nd == len(revs) + 1:
          sim.probe('failed-but-committed')
          self.check_state(d, revs + [nxt], 'failed-on-disk')
        else:
          raise core.Violation('partial-commit', f'{nd} revisions')
        if interrupt:
          if note:
            sim.probe('declared-inconsistent')
          else:
            nm = len(m.get_revision_history(tz=UTC))
            if nm == len(revs) + 1 and nd == nm:
              self.check_state(m, revs + [nxt], 'interrupted')
            else:
              self.check_state(m, revs, 'interrupted')
          if nd == len(revs) + 1:
            revs.append(nxt)
          m = self.open(ROOT, fs)
          self.check_state(m, revs, 'reopened')
          continue
        self.check_state(m, revs, 'failed-update')
        self.check_partial(m, revs[-1], 'failed-update')
        if nd == len(revs) + 1:
          # Lost acknowledgement: this instance is stale and must say so.
          u2 = self.gen_update(revs[-1].ds)
          try:
            self.do_update(m, u2)
          except Exception as e:  # pylint: disable=broad-except
            sim.log('refused', type(e).__name__)
          else:
            raise core.Violation(
                'lost-update', 'a stale manager replaced a committed revision')
          revs.append(nxt)
          m = self.open(ROOT, fs)
          self.check_state(m, revs, 'reopened')
          continue
        retry_same = ch.chance(0.7)
        if not retry_same:
          u = self.gen_update(revs[-1].ds)
          nxt = self.next_rev(revs[-1], u)
        fresh = self.inner_lost_ack or ch.chance(0.3)
        m2 = self.open(ROOT, fs) if fresh else m
        try:
          self.do_update(m2, u)
        except Exception as e:  # pylint: disable=broad-except
          if m2 is m and 'lost-ack' in sim.faults:
            # The acknowledgement of an inner commit was lost; only a new
            # instance can continue (the error says so).
            m = self.open(ROOT, fs)
            self.check_state(m, revs, 'reopened')
            self.do_update(m, u)
            revs.append(nxt)
            self.check_state(m, revs, 'retried')
            continue
          raise core.Violation(
              'retry-refused', f'nothing was committed and the fault is gone, '
              f'but the retry failed: {type(e).__name__}: {e}')
        m = m2
        revs.append(nxt)
        self.check_state(m, revs, 'retried')
        self.check_state(self.open(ROOT, self.fs()), revs, 'retried-on-disk')

    def main():
      t = sim.spawn(body, name='P', proc=self.proc())
      self.join_all([t])

    sim.run(main)

  inner_lost_ack = False

  def arm_interrupt(self, t):
    """KeyboardInterrupt after a drawn number of bytecodes of storage code."""
    left = [self.ch.draw(lambda r: int(r.expovariate(1 / 9000)))]
    t.pending_exc = KeyboardInterrupt()

    def interruptible(frame):
      if core.current_task() is not t:
        return False
      left[0] -= 1
      return left[0] < 0 and core.Sim.interruptible(self.sim, frame)
    self.sim.interruptible = interruptible

  def disarm_interrupt(self, t):
    t.pending_exc = None

  def bad_update(self, m, revs):
    """Updates with invalid arguments are refused without a trace."""
    ch, kd = self.ch, self.kd
    k = ch.pick(4)
    P = self.Path
    path, attr, value = P.from_actions([]), 'zz', kd.item(1)
    if k == 0:
      path = P.from_actions([self.env.dsp.GetAttr('nope')])
    elif k == 1:
      value = kd.obj(x=1)
    elif k == 2:
      value = kd.slice([1, 2])
    else:
      prims = [p for p, s in self.all_paths(revs[-1].ds)
               if not isinstance(s._schema, minikd.ItemId)]
      if not prims:
        return
      path = ch.choice(prims)
    before = self.store.listing()
    try:
      m.update(at_path=path, attr_name=attr, attr_value=value)
    except Exception as e:  # pylint: disable=broad-except
      self.sim.log('rejected', type(e).__name__)
    else:
      raise core.Violation('accepted-invalid', f'case {k}')
    self.check_state(m, revs, 'rejected-update')
    if self.store.listing() != before:
      self.check_state(self.open(ROOT, self.fs()), revs, 'rejected-update')


class Writers(Base):
  """Several processes update one directory; none of them is lost."""

  def run(self, sim):
    self.begin(sim)
    self.rich = ch = self.ch
    self.rich = False
    crashes = ch.chance(0.3)
    attempts = []
    reads = []
    revs_by_sig = {}

    def writer(i):
      plan = simfs.FaultPlan(sim)
      if crashes and i == 0:
        plan.crash_at = ch.pick(90)
      elif ch.chance(0.3):
        plan.slow_p = 0.05
      fs = self.fs(plan)

      def body():
        self.set_cache(self.draw_cache())
        m = self.open(ROOT, fs)
        for _ in range(1 + ch.pick(3)):
          base = self.find(entries(m), attempts)
          if base is None:
            raise core.Violation(
                'not-a-snapshot', f'opened history {entries(m)}')
          if ch.chance(0.3):
            self.check_state(m, base, 'snapshot')
          u = self.gen_update(base[-1].ds)
          u.description = f'W{i}-{self.n}'
          nxt = self.next_rev(base[-1], u)
          rec = {'base': base, 'rev': nxt, 'st': 'inflight'}
          attempts.append(rec)
          sim.log('update', u.description, 'on', len(base))
          try:
            self.do_update(m, u)
          except Exception as e:  # pylint: disable=broad-except
            rec['st'] = 'failed'
            sim.log('refused', type(e).__name__, u.description)
            sim.probe('writer-refused')
            self.check_state(m, base, 'refused-writer')
            if ch.chance(0.7):
              m = self.open(ROOT, fs)
            continue
          rec['st'] = 'acked'
          sim.log('acked', u.description)
          self.check_state(m, base + [nxt], 'own-write')
      return body

    def reader(i):
      fs = self.fs(None)

      def body():
        self.set_cache(self.draw_cache())
        m = self.open(ROOT, fs)
        h = entries(m)
        base = self.find(h, attempts)
        if base is None:
          raise core.Violation('not-a-snapshot', f'reader opened {h}')
        for _ in range(1 + ch.pick(3)):
          if ch.chance(0.5):
            self.check_partial(m, base[-1], 'reader')
          else:
            self.check_state(m, base, 'reader')
        reads.append(base)
      return body

    def main():
      m = self.create(ROOT, self.fs())
      self.first = [self.first_rev(m)]
      if ch.chance(0.6):
        u = self.gen_update(self.first[-1].ds)
        self.do_update(m, u)
        self.first.append(self.next_rev(self.first[-1], u))
      ts = [sim.spawn(writer(i), name=f'W{i}', proc=self.proc('W'))
            for i in range(2 + ch.pick(2))]
      ts += [sim.spawn(reader(i), name=f'R{i}', proc=self.proc('R'))
             for i in range(ch.pick(2))]
      self.join_all(ts)
      m = self.open(ROOT, self.fs())
      final = self.find(entries(m), attempts)
      if final is None:
        raise core.Violation('phantom-update', f'final {entries(m)}')
      self.check_state(m, final, 'final')
      descs = [r.description for r in final]
      for a in attempts:
        d = a['rev'].description
        if a['st'] == 'acked' and d not in descs:
          raise core.Violation(
              'lost-update', f'acknowledged {d} is not in {descs}')
        if a['st'] == 'failed' and d in descs:
          raise core.Violation('phantom-update', f'refused {d} is in {descs}')
        if d in descs and [r.description for r in a['base']] != descs[
            :descs.index(d)]:
          raise core.Violation('not-serial', f'{d} in {descs}')
      for b in reads:
        if [r.description for r in b] != descs[:len(b)]:
          raise core.Violation('not-a-snapshot', f'{b} vs {descs}')
      if attempts and len(final) == len(self.first) and not crashes:
        # Two half-done updates can refuse each other, but once everybody
        # stopped a new instance can go on.
        sim.probe('all-refused')
      u = self.gen_update(final[-1].ds)
      m2 = self.open(ROOT, self.fs())
      try:
        self.do_update(m2, u)
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation(
            'no-progress', f'a fresh writer is refused: {type(e).__name__} {e}')
      self.check_state(m2, final + [self.next_rev(final[-1], u)], 'final')

    sim.run(main)

  def find(self, h, attempts):
    """The list of revisions with this history, or None."""
    if h == [r.entry() for r in self.first[:len(h)]]:
      return self.first[:len(h)] if len(h) >= len(self.first) else (
          self.first[:len(h)])
    for a in attempts:
      c = a['base'] + [a['rev']]
      if [r.entry() for r in c] == h and a['st'] != 'failed':
        return c
    return None


class History(Base):
  """Every committed revision stays available, unchanged, for ever."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch

    def body():
      self.set_cache(self.draw_cache())
      plan = simfs.FaultPlan(sim)
      fs = self.fs(plan)
      m = self.create(ROOT, fs)
      revs = [self.first_rev(m)]
      raw = m.get_revision_history(tz=UTC)
      for _ in range(2 + ch.pick(4)):
        u = self.gen_update(revs[-1].ds)
        nxt = self.next_rev(revs[-1], u)
        if ch.chance(0.25):
          # A half-done update in between must not show up anywhere.
          self.fail_update(u, ch.chance(0.5))
          m = self.open(ROOT, fs)
          n = len(m.get_revision_history(tz=UTC))
          if n == len(revs) + 1:
            revs.append(nxt)
            raw = m.get_revision_history(tz=UTC)
            continue
        self.do_update(m, u)
        revs.append(nxt)
        raw2 = m.get_revision_history(tz=UTC)
        if raw2[:-1] != raw:
          raise core.Violation('history-rewritten', f'{raw} -> {raw2}')
        raw = raw2
        if ch.chance(0.4):
          self.visit(revs, raw, fs, ch.pick(len(revs)))
          # The refused update of an old instance may have made m stale.
          m = self.open(ROOT, fs)
      for i in range(len(revs)):
        self.visit(revs, raw, fs, i)
      for bad in (len(revs), -1, len(revs) + 3):
        try:
          self.open(ROOT, fs, at_revision_history_index=bad)
        except ValueError:
          continue
        raise core.Violation('phantom-revision', f'index {bad} was opened')
      self.check_state(self.open(ROOT, fs), revs, 'latest')

    def main():
      self.join_all([sim.spawn(body, name='P', proc='P')])

    self.env.cache.reset('P')
    sim.run(main)

  def fail_update(self, u, crash):
    sim, ch = self.sim, self.ch
    plan = simfs.FaultPlan(sim)
    if crash:
      plan.crash_at = ch.pick(60)
    else:
      plan.fail_at = (ch.pick(60), 'io-error')

    def body():
      m = self.open(ROOT, self.fs(plan))
      self.do_update(m, u)

    t = sim.spawn(body, name='failing', proc=self.proc('failing'))
    sim.join(t)

  def visit(self, revs, raw, fs, i):
    ch = self.ch
    if ch.chance(0.3):
      self.env.cache.clear()
    ro = ch.chance(0.5)
    m = self.open(ROOT, fs, at_revision_history_index=i,
                  **({'read_only': True} if ro else {}))
    self.check_state(m, revs[:i + 1], 'time-travel')
    self.check_partial(m, revs[i], 'time-travel')
    self.check_exists(m, revs[i], 'time-travel')
    got = m.get_revision_history(tz=UTC)
    if got != raw[:i + 1]:
      raise core.Violation('history-rewritten', f'{got} vs {raw[:i + 1]}')
    if m.is_read_only != ro:
      raise core.Violation('read-only-flag', f'{m.is_read_only} {ro}')
    if ro or i < len(revs) - 1:
      try:
        self.do_update(m, self.gen_update(revs[i].ds))
      except Exception as e:  # pylint: disable=broad-except
        self.sim.log('refused', type(e).__name__)
      else:
        raise core.Violation(
            'history-rewritten', f'update on top of revision {i} of '
            f'{len(revs) - 1} accepted (read_only={ro})')
      self.check_state(m, revs[:i + 1], 'after-refusal')


class Branches(Base):
  """Branches: right starting point, unique place, full independence."""

  def run(self, sim):
    self.begin(sim)
    ch = self.ch
    concurrent = ch.chance(0.4)
    sim.uuid_clash = ch.choice([0, 0.4, 0.8])
    sequential = not concurrent
    # The file system that the live manager of a directory was given.
    self.fs_of = {}

    def step_branch(live, d, fs, out=None, idx=None):
      m, revs = live[d]
      kw = {}
      if out is not None:
        kw['output_dir'] = out
      if idx is not None:
        kw['revision_history_index'] = idx
      if ch.chance(0.5):
        kw['description'] = f'branch {self.n}'
      other_fs = None
      if sequential and ch.chance(0.4):
        other_fs = kw['fs'] = self.fs(simfs.FaultPlan(sim))
        sim.probe('branch-with-its-own-file-system')
      fs.touched.clear()
      b = m.branch(**kw)
      if other_fs is not None:
        self.check_own_fs(b.get_persistence_directory(), fs, other_fs)
      self.fs_of[b.get_persistence_directory()] = other_fs or fs
      i = len(revs) - 1 if idx is None else idx % len(revs)
      bd = b.get_persistence_directory()
      if bd in live:
        raise core.Violation('branch-clobbered', f'{bd} is already in use')
      if out is not None and bd != out:
        raise core.Violation('branch-place', f'{bd} != {out}')
      h = b.get_revision_history(tz=UTC)
      if (len(h) != 1 or type(h[0]).__name__ != 'BranchMetadata'
          or h[0].parent_persistence_directory != d
          or h[0].parent_revision_history_index != i
          or h[0].description != kw.get('description', '')):
        raise core.Violation('branch-history', f'{h}')
      rev = Rev(revs[i].ds, 'branch', kw.get('description', ''),
                before=[revs[i]])
      self.check_state(b, [rev], 'branch-start')
      return bd, (b, [rev])

    def seq():
      self.set_cache(self.draw_cache())
      fs = self.fs(simfs.FaultPlan(sim))
      m = self.create(ROOT, fs)
      live = {ROOT: (m, [self.first_rev(m)])}
      self.fs_of[ROOT] = fs
      for _ in range(4 + ch.pick(4)):
        d = ch.choice(sorted(live))
        m, revs = live[d]
        op = ch.weighted([4, 3, 1, 1, 1])
        if op == 0:
          u = self.gen_update(revs[-1].ds)
          fs.touched.clear()
          self.do_update(m, u)
          if self.fs_of[d] is not fs:
            self.check_own_fs(d, fs, self.fs_of[d])
          revs.append(self.next_rev(revs[-1], u))
        elif op == 1:
          self.n += 1
          out = f'/disk/br{self.n}' if ch.chance(0.5) else None
          if out and ch.chance(0.3):
            self.store.dirs.add(out)
          idx = None
          if ch.chance(0.6):
            idx = ch.pick(2 * len(revs)) - len(revs)
          bd, rec = step_branch(live, d, self.fs_of[d], out, idx)
          live[bd] = rec
        elif op == 2:
          live[d] = (self.open(d, fs), revs)
          self.fs_of[d] = fs
        elif op == 3:
          other = ch.choice(sorted(live))
          try:
            m.branch(output_dir=other)
          except ValueError:
            pass
          else:
            raise core.Violation('branch-clobbered', f'onto {other}')
        else:
          self.env.cache.clear()
        dd = ch.choice(sorted(live))
        self.check_state(live[dd][0], live[dd][1], 'independence')
      self.env.cache.clear()
      for dd, (m, revs) in sorted(live.items()):
        self.check_state(m, revs, 'independence')
        self.check_state(self.open(dd, fs), revs, 'independence-on-disk')

    def conc():
      m = self.create(ROOT, self.fs())
      trunk = [self.first_rev(m)]
      for _ in range(1 + ch.pick(2)):
        u = self.gen_update(trunk[-1].ds)
        self.do_update(m, u)
        trunk.append(self.next_rev(trunk[-1], u))
      made = {}
      trunk_upd = []

      def brancher(i):
        plan = simfs.FaultPlan(sim)
        k = ch.pick(4)
        if k == 0:
          plan.crash_at = ch.pick(ch.choice([60, 150]))
        elif k == 1:
          plan.fail_at = (ch.pick(12), ch.choice(['io-error', 'lost-ack']))
        elif k == 2:
          plan.slow_p = 0.1
        fs = self.fs(plan)

        def body():
          mm = self.open(ROOT, fs)
          h = entries(mm)
          base = self.prefix(h, trunk, trunk_upd)
          live = {ROOT: (mm, base)}
          for _ in range(1 + ch.pick(2)):
            try:
              bd, (b, revs) = step_branch(live, ROOT, fs)
            except core.Violation:
              raise
            except Exception as e:  # pylint: disable=broad-except
              if plan.fail_at is None and k == 1:
                sim.log('branch-failed', type(e).__name__)
                continue
              raise
            if bd in made:
              raise core.Violation(
                  'branch-clobbered', f'two branches share {bd}')
            made[bd] = revs
            if ch.chance(0.5):
              u = self.gen_update(revs[-1].ds)
              nxt = self.next_rev(revs[-1], u)
              made.pop(bd)
              self.do_update(b, u)
              made[bd] = revs + [nxt]
              self.check_state(b, made[bd], 'branch-update')
        return body

      def trunk_writer():
        mm = self.open(ROOT, self.fs())
        for _ in range(1 + ch.pick(2)):
          u = self.gen_update((trunk_upd or trunk)[-1].ds)
          nxt = self.next_rev((trunk_upd or trunk)[-1], u)
          u2 = u
          trunk_upd.append(nxt)
          self.do_update(mm, u2)

      n = 2 + ch.pick(2)
      ts = [sim.spawn(brancher(i), name=f'B{i}', proc=self.proc('B'))
            for i in range(n)]
      if ch.chance(0.5):
        ts.append(sim.spawn(trunk_writer, name='T', proc=self.proc('T')))
      for t in ts:
        sim.join(t)
      self.join_all([t for t in ts if not self.injected(t)])
      fs = self.fs()
      self.check_state(self.open(ROOT, fs), trunk + trunk_upd, 'trunk')
      for bd, revs in sorted(made.items()):
        self.check_state(self.open(bd, fs), revs, 'independence-on-disk')
      # A branch whose making was cut short is whole or cannot be opened.
      places = {f.split('/')[len(ROOT.split('/')) + 1]
                for f in self.store.files
                if f.startswith(f'{ROOT}/branches/')
                and f.count('/') > ROOT.count('/') + 2}
      for bd in sorted(f'{ROOT}/branches/{p}' for p in places):
        if bd not in made:
          self.check_left_over(bd, trunk + trunk_upd, fs)
      # Once the faults stopped, branching works.
      mm = self.open(ROOT, fs)
      b = mm.branch()
      if b.get_persistence_directory() in made:
        raise core.Violation('branch-clobbered', 'afterwards')
      self.check_state(b, [Rev((trunk + trunk_upd)[-1].ds, 'branch', '')],
                       'branch-start')

    def main():
      t = sim.spawn(conc if concurrent else seq, name='P', proc=self.proc())
      self.join_all([t])

    sim.run(main)

  def check_own_fs(self, d, fs, own):
    """All access to `d` went through the file system it was given."""
    if fs.touched_under(d) or not own.touched_under(d):
      raise core.Violation(
          'wrong-file-system', f'{d}: {fs.touched_under(d)[:3]} not through '
          'the file system it was given')

  def check_left_over(self, bd, trunk, fs):
    try:
      b = self.open(bd, fs)
    except Exception:  # pylint: disable=broad-except
      self.sim.probe('left-over-branch-unusable')
      return
    self.sim.probe('left-over-branch-usable')
    h = b.get_revision_history(tz=UTC)
    if (type(h[0]).__name__ != 'BranchMetadata'
        or h[0].parent_persistence_directory != ROOT
        or h[0].parent_revision_history_index >= len(trunk)):
      raise core.Violation('left-over-branch', f'{bd}: {h}')
    self.sim.probe('left-over-branch-of-%d' % min(len(h), 2))
    if len(h) != 1:
      return  # it had been made, and was updated when its process died
    base = trunk[h[0].parent_revision_history_index]
    self.check_state(
        b, [Rev(base.ds, 'branch', h[0].description, before=[base])],
        'left-over-branch')

  def injected(self, t):
    return isinstance(t.exc, OSError)

  def prefix(self, h, trunk, trunk_upd):
    allr = trunk + trunk_upd
    if h != [r.entry() for r in allr[:len(h)]]:
      raise core.Violation('not-a-snapshot', f'{h}')
    return allr[:len(h)]


class Partial(Base):
  """Loading any part gives exactly what loading everything gives."""

  def run(self, sim):
    self.begin(sim)
    self.rich = True
    ch = self.ch

    def body():
      self.set_cache(self.draw_cache())
      fs = self.fs(simfs.FaultPlan(sim))
      m = self.create(ROOT, fs)
      revs = [self.first_rev(m)]
      for _ in range(3 + ch.pick(6)):
        u = self.gen_update(revs[-1].ds)
        sim.log('update', u)
        nxt = self.next_rev(revs[-1], u)
        self.do_update(m, u)
        revs.append(nxt)
        if ch.chance(0.3):
          m = self.open(ROOT, fs)
          if ch.chance(0.5):
            self.env.cache.clear()
        self.check_partial(m, revs[-1], 'partial')
      self.check_state(m, revs, 'full')
      self.check_exists(m, revs[-1], 'full')
      if ch.chance(0.5):
        self.env.cache.clear()
        m = self.open(ROOT, fs)
      for _ in range(4):
        self.check_partial(m, revs[-1], 'partial')
      self.check_state(m, revs, 'full')

    def main():
      self.join_all([sim.spawn(body, name='P', proc=self.proc())])

    sim.run(main)


class Pinned(Base):
  """Read-only copies and composites stay at the revision they were taken at."""
  trace_fraction = 0.1
  step_limit = 2_000_000

  def run(self, sim):
    self.begin(sim)
    self.rich = False
    ch = self.ch

    def body():
      self.set_cache(self.draw_cache())
      fs = self.fs(simfs.FaultPlan(sim))
      m = self.create(ROOT, fs)
      revs = [self.first_rev(m)]
      other = None
      orevs = None
      if ch.chance(0.5):
        # A second manager with the same root: its data enriches the first.
        other = self.create('/disk/other', fs)
        orevs = [self.first_rev(other)]
      copies = []
      comps = []
      tasks = []

      def watcher(c, frozen, what):
        def w():
          for _ in range(1 + ch.pick(3)):
            if ch.chance(0.5):
              self.check_state(c, frozen, what)
            else:
              self.check_partial(c, frozen[-1], what)
        return w

      for _ in range(3 + ch.pick(5)):
        op = ch.weighted([4, 3, 2, 2])
        if op == 0 or (op == 3 and other is None):
          u = self.gen_update(revs[-1].ds)
          nxt = self.next_rev(revs[-1], u)
          self.do_update(m, u)
          revs.append(nxt)
        elif op == 1:
          c = m.get_readonly_copy()
          frozen = list(revs)
          self.check_state(c, frozen, 'copy')
          if not c.is_read_only:
            raise core.Violation('read-only', 'the copy is writable')
          try:
            self.do_update(c, self.gen_update(revs[-1].ds))
          except ValueError:
            pass
          else:
            raise core.Violation('read-only', 'a read-only copy was updated')
          copies.append((c, frozen))
          if ch.chance(0.6):
            tasks.append(sim.spawn(
                watcher(c, frozen, 'copy'), name=f'V{len(tasks)}',
                proc=core.current_task().proc))
        elif op == 2:
          if len(comps) >= 2:
            continue
          k = len(comps)
          src = [m] if other is None else [m, other]
          want = revs[-1].ds
          if other is not None:
            want = want.enriched(orevs[-1].ds.get_bag())
          idm = self.env.comp.CompositeInitialDataManager.create_new(src)
          d = f'/disk/comp{k}'
          cm = self.DSM.create_new(d, fs=fs, initial_data_manager=idm)
          crev = [Rev(want, 'creation', entries(cm)[0][1], before=[revs[-1]] + (
              [] if other is None else [orevs[-1]]))]
          self.check_state(cm, crev, 'composite')
          comps.append([d, cm, crev])
        else:
          u = self.gen_update(orevs[-1].ds)
          nxt = self.next_rev(orevs[-1], u)
          self.do_update(other, u)
          orevs.append(nxt)
        if comps and ch.chance(0.3):
          rec = ch.choice(comps)
          u = self.gen_update(rec[2][-1].ds)
          nxt = self.next_rev(rec[2][-1], u)
          self.do_update(rec[1], u)
          rec[2].append(nxt)
        if copies and ch.chance(0.5):
          c, frozen = ch.choice(copies)
          self.check_state(c, frozen, 'copy')
        if comps and ch.chance(0.5):
          d, cm, crev = ch.choice(comps)
          if ch.chance(0.4):
            cm = self.open(d, fs)
          elif ch.chance(0.4):
            self.n += 1
            cm = cm.branch(f'/disk/cb{self.n}')
            crev = [Rev(crev[-1].ds, 'branch', '', before=[crev[-1]])]
            if ch.chance(0.5):
              cm = self.open(cm.get_persistence_directory(), fs)
          self.check_state(cm, crev, 'composite')
          self.check_partial(cm, crev[-1], 'composite')
      self.join_all(tasks)
      if ch.chance(0.5):
        self.env.cache.clear()
      for c, frozen in copies:
        self.check_state(c, frozen, 'copy')
      for d, cm, crev in comps:
        self.check_state(cm, crev, 'composite')
        self.check_state(self.open(d, fs), crev, 'composite-on-disk')
      self.check_state(m, revs, 'origin')

    def main():
      self.join_all([sim.spawn(body, name='P', proc='P')])

    self.env.cache.reset('P')
    sim.run(main)
