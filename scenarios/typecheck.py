"""kd.check_inputs / check_output: which calls are checked, in any thread.

Runs the real type_checking.py on the real tracing_mode.py.  Slices are mini-kd
slices; lazy operators build small expressions that can be evaluated, so that a
traced check is judged by what evaluating the traced function does.
"""

import contextvars
import inspect
import threading

from sim import core
from sim import minikd
from sim import stubload
from sim.scenario import Scenario
from sim.stubload import Anything, module

PY = '/repo/py/koladata/type_checking/type_checking.py'


class _Boom(Exception):
  pass


class CheckFailed(Exception):
  """A traced check failed on evaluation."""


class Expr:
  """A lazy expression: op(*args)."""

  def __init__(self, op, *args):
    self.op, self.args = op, args

  def __eq__(self, other):
    return Expr('eq', self, other)

  __hash__ = object.__hash__

  def __invert__(self):
    return Expr('not', self)

  def is_primitive(self):
    return Expr('is_primitive', self)

  def has_attr(self, name):
    return Expr('has_attr', self, name)

  def get_attr(self, name):
    return Expr('get_attr', self, name)

  # Of signatures.
  def __getitem__(self, key):
    return self

  def with_schema(self, schema):
    return self

  def get_obj_schema(self):
    return Expr('types', self)

  parameters = property(lambda self: Expr('column', self, 'parameters'))
  default_value = property(lambda self: Expr('column', self, 'default_value'))
  kind = property(lambda self: Expr('column', self, 'kind'))
  name = property(lambda self: Expr('column', self, 'name'))

  def eval(self, env=None):
    if self.op == 'input':
      return env[self.args[0]]
    if self.op == 'literal':
      return self.args[0]
    a = [x.eval(env) if isinstance(x, Expr) else x for x in self.args[:2]]
    if self.op == 'assert':
      if not a[1]:
        raise CheckFailed()
      return a[0]
    if self.op == 'eq':
      return a[0] == a[1]
    if self.op == 'not':
      return not a[0]
    if self.op == 'is_primitive':
      return bool(a[0].is_primitive_schema())
    if self.op == 'has_attr':
      return bool(minikd.has_attr(a[0], a[1]))
    if self.op == 'get_attr':
      return _get_attr(*a)
    if self.op == 'is_fn':
      return _is_fn(a[0])
    if self.op == 'column':
      return a[0].column(a[1])
    if self.op == 'types':
      return a[0].types()
    if self.op == 'uuid':
      return (a[0], tuple((k, v.eval(env) if isinstance(v, Expr) else v)
                          for k, v in a[1]))
    if self.op == 'agg_uuid':
      return ('agg', a[0])
    if self.op == 'get_schema':
      return a[0].get_schema()
    raise core.HarnessError(f'expression {self.op} is not modelled')


class Sig:
  """The signature of a functor, or the same column of all its parameters."""

  def __init__(self, sig, rows=None):
    self.sig = sig
    self.rows = rows

  def column(self, name):
    if name == 'parameters':
      return Sig(self.sig, list(self.sig.parameters.values()))
    if name == 'default_value' and self.rows and self.rows[0] is int:
      return self.rows[1]
    attr = {'default_value': 'default', 'kind': 'kind', 'name': 'name'}[name]
    return tuple(getattr(p, attr) for p in self.rows)

  def types(self):
    return Sig(self.sig, (int, tuple(type(p.default) for p in self.rows)))


_FUNCTORS = {}   # ItemId -> Sig


def _is_fn(x):
  return isinstance(x, minikd.DataItem) and x._vals[0] in _FUNCTORS


def _get_attr(x, name):
  if isinstance(x, Sig):
    return x.column(name)
  if name == '__signature__':
    return _FUNCTORS[x._vals[0]]
  if name == '__items__':
    return x[:]
  if name == '__keys__':
    return x.get_keys()
  if name == '__values__':
    return x.get_values()
  return x.get_attr(name)


def _boxed(x):
  return x if isinstance(x, (minikd.DataSlice, Expr)) else minikd.item(x)


def load(tracing_mode):
  eager = module(
      'eager', is_primitive=lambda s: s.is_primitive_schema(),
      has_attr=minikd.has_attr, get_attr=_get_attr,
      functor=module('functor', is_fn=_is_fn),
      schema=module('schema', get_repr=repr, new_schema=minikd.new_schema),
      slices=module('slices', get_repr=repr))
  lazy = module(
      'lazy', schema=module('schema', get_schema=lambda x: Expr(
          'get_schema', x), get_repr=lambda x: ''),
      functor=module('functor', is_fn=lambda x: Expr('is_fn', x)),
      ids=module(
          'ids', uuid=lambda seed, **kw: Expr(
              'uuid', seed, tuple(sorted(kw.items()))),
          agg_uuid=lambda x: Expr('agg_uuid', x)),
      strings=module('strings', join=lambda *a: ''),
      slices=module('slices', get_repr=lambda x: ''),
      assertion=module('assertion', with_assertion=lambda x, cond, *a: Expr(
          'assert', x, cond)))
  arolla = module('arolla.arolla', Expr=Expr)
  stubs = {
      'arolla': module('arolla', arolla=arolla),
      'arolla.arolla': arolla,
      'koladata.expr.tracing_mode': tracing_mode,
      'koladata.functor': module(
          'functor', functor_factories=module(
              'functor_factories',
              get_inspect_signature=lambda f: _FUNCTORS[f._vals[0]].sig)),
      'koladata.operators': module('operators', kde_operators=module(
          'kde_operators', kd=eager, kde=lazy)),
      'koladata.types': module(
          'types',
          data_item=module('data_item', DataItem=minikd.DataItem),
          data_slice=module('data_slice', DataSlice=minikd.DataSlice),
          py_boxing=module('py_boxing', as_qvalue=_boxed),
          schema_constants=module('schema_constants', OBJECT=minikd.OBJECT),
          schema_item=module('schema_item', SchemaItem=minikd.SchemaItem),
          signature_utils=module(
              'signature_utils',
              from_py_signature=lambda s: Expr('literal', Sig(s)))),
  }
  return stubload.load(PY, 'sim_type_checking', stubs)


class TypeChecks(Scenario):
  step_limit_is_violation = True

  def setup(self):
    minikd.install()
    from koladata.expr import tracing_mode
    self.tm = tracing_mode
    self.tc = load(tracing_mode)

  # -- types, constraints and whether they agree ---------------------------------
  # A type is ('prim', name), ('ent', id, {attr: type}), ('list', type),
  # ('dict', key, value), ('obj',) or ('fn', index of a signature).

  SIGS = [inspect.signature(f) for f in (
      lambda x: 0, lambda z: 0, lambda x, y: 0, lambda x, y=1: 0,
      lambda x, y=2: 0, lambda x, y='1': 0, lambda x, *, y=1: 0,
      lambda x, *, y: 0)]

  def values(self):
    """{name: (value, type)}."""
    kd = minikd
    i, st = ('prim', 'int'), ('prim', 'str')
    one = kd.item(1, kd.INT32)
    foo = kd.new(a=one)
    two = kd.new(a=one, b='y')
    bar = kd.new(b=one)
    fns = []
    _FUNCTORS.clear()
    for sig in self.SIGS:
      f = kd.obj(returns=1)
      _FUNCTORS[f._vals[0]] = Sig(sig)
      fns.append(f)
    tfoo, ttwo = ('ent', 1, {'a': i}), ('ent', 2, {'a': i, 'b': st})
    tbar = ('ent', 3, {'b': i})
    wrap, deep = kd.new(a=foo, b=two), kd.new(a=kd.new(a=bar))
    flist, tdict = kd.list_([foo, foo]), kd.dict_({'k': two})
    r = {
        'int': (one, i), 'str': (kd.item('x'), st),
        'ints': (kd.slice_([1, 2]), i),
        'pyint': (1, i), 'pystr': ('x', st),
        'none': (None, ('prim', 'none')),
        'foo': (foo, tfoo), 'two': (two, ttwo), 'bar': (bar, tbar),
        'foostr': (kd.new(a='y'), ('ent', 4, {'a': st})),
        'wrap': (wrap, ('ent', 5, {'a': tfoo, 'b': ttwo})),
        'deep': (deep, ('ent', 6, {'a': ('ent', 7, {'a': tbar})})),
        'list': (kd.list_([1, 2]), ('list', i)),
        'flist': (flist, ('list', tfoo)),
        'dict': (kd.dict_({'k': 1}), ('dict', st, i)),
        'tdict': (tdict, ('dict', st, ttwo)),
        'hold': (kd.new(a=flist, b=tdict),
                 ('ent', 8, {'a': ('list', tfoo), 'b': ('dict', st, ttwo)})),
        'obj': (kd.obj(a=1), ('obj',)),
    }
    for n, f in enumerate(fns):
      r[f'fn{n}'] = (f, ('fn', n))
    r['fnhold'] = (kd.new(a=fns[0], b=fns[3]),
                   ('ent', 9, {'a': ('fn', 0), 'b': ('fn', 3)}))
    return r

  # A constraint is ('schema', type), ('duck', {attr: constraint}),
  # ('static', constraint or None) or ('fn', index or None).

  def attrs_of(self, t):
    return {'ent': lambda: t[2], 'list': lambda: {'__items__': t[1]},
            'dict': lambda: {'__keys__': t[1], '__values__': t[2]},
            }.get(t[0], dict)()

  def gen_constraint(self, ch, types, t, depth=0, static=True):
    """A constraint that t often satisfies."""
    if depth and ch.chance(0.1):
      t = ch.choice(types)
    if static and ch.chance(0.06 if depth else 0.2):
      return ('static', None if ch.chance(0.3) else
              self.gen_constraint(ch, types, t, depth, False))
    if t[0] == 'fn' and ch.chance(0.8) or not depth and ch.chance(0.03):
      if ch.chance(0.3):
        return ('fn', None)
      return ('fn', t[1] if t[0] == 'fn' and ch.chance(0.5) else
              ch.pick(len(self.SIGS)))
    sub = self.attrs_of(t)
    if t[0] == 'fn' or ch.chance(0.15 if sub else 0.7):
      return ('schema', ('obj',) if t[0] == 'fn' else t)
    d = {}
    for a, ta in sub.items():
      if ch.chance(0.75):
        d[a] = self.gen_constraint(ch, types, ta, depth + 1, static)
    if ch.chance(0.1):
      d[ch.choice(['a', 'b', 'c', '__items__', '__keys__'])] = ('duck', {})
    return ('duck', d)

  def build(self, c, schemas):
    tc = self.tc
    if c[0] == 'schema':
      return schemas[repr(c[1])]
    if c[0] == 'static':
      return tc.static_when_tracing(
          *([] if c[1] is None else [self.build(c[1], schemas)]))
    if c[0] == 'fn':
      return (tc.functor() if c[1] is None else tc.functor(self.SIGS[c[1]]))
    d = {a: self.build(x, schemas) for a, x in c[1].items()}
    if set(d) == {'__items__'}:
      return tc.duck_list(d['__items__'])
    if set(d) == {'__keys__', '__values__'}:
      return tc.duck_dict(d['__keys__'], d['__values__'])
    return tc.duck_type(**d)

  def sat(self, c, t):
    if c[0] == 'schema':
      return c[1] == (('obj',) if t[0] == 'fn' else t)
    if c[0] == 'static':
      return c[1] is None or self.sat(c[1], t)
    if c[0] == 'fn':
      return t[0] == 'fn' and (
          c[1] is None or self.SIGS[c[1]] == self.SIGS[t[1]])
    sub = self.attrs_of(t)
    return all(a in sub and self.sat(x, sub[a]) for a, x in c[1].items())

  def has_static(self, c):
    return c[0] == 'static' or c[0] == 'duck' and any(
        map(self.has_static, c[1].values()))

  def run(self, sim):
    ch = sim.ch
    tm, tc = self.tm, self.tc
    values = self.values()
    names = list(values)
    types = [t for _, t in values.values()]
    schemas = {repr(('obj',)): minikd.OBJECT}
    for v, t in values.values():
      schemas[repr(t)] = _boxed(v).get_schema()
    for name in names:
      for a, t in self.attrs_of(values[name][1]).items():
        schemas[repr(t)] = _get_attr(values[name][0], a).get_schema()
        for a2, t2 in self.attrs_of(t).items():
          schemas[repr(t2)] = _get_attr(
              _get_attr(values[name][0], a), a2).get_schema()
    budget = [25 + ch.pick(50)]
    failures, pending = [], []
    local = threading.local()
    made = []

    class Made:
      """f(x, y=default) with checks; returns x, y or a constant."""

    def constraint(name):
      """One that fits the named value, or another one."""
      t = values[name][1] if ch.chance(0.75) else ch.choice(types)
      return self.gen_constraint(ch, types, t)

    def make(xv, yv):
      m = Made()
      m.cin, m.cout, m.const = {}, None, None
      m.default = ch.choice(names)
      m.ret = ch.choice(['x', 'x', 'y', 'const'])
      if m.ret == 'const':
        m.const = ch.choice(names)
      if ch.chance(0.8):
        m.cin['x'] = constraint(xv)
      if ch.chance(0.5):
        m.cin['y'] = constraint(yv or m.default)
      if ch.chance(0.5):
        m.cout = constraint(m.const or (xv if m.ret == 'x'
                                        else yv or m.default))
      default = values[m.default][0]

      def impl(x, y=default):
        """The function."""
        local.calls.append((x, y))
        return {'x': x, 'y': y}[m.ret] if m.ret != 'const' else (
            values[m.const][0])
      g = impl
      try:
        if m.cout is not None:
          g = tc.check_output(self.build(m.cout, schemas))(g)
        if m.cin:
          kw = {k: self.build(c, schemas) for k, c in m.cin.items()}
          g = tc.check_inputs(**kw)(g)
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation(
            'unexpected-exception',
            f'decorating with {m.cin} {m.cout}: {type(e).__name__}: {e}') from e
      if g.__doc__ != impl.__doc__ or [
          (p.name, p.kind, id(p.default))
          for p in inspect.signature(g).parameters.values()] != [
              (p.name, p.kind, id(p.default))
              for p in inspect.signature(impl).parameters.values()]:
        raise core.Violation('wrong-result', 'signature or docstring is lost')
      m.f = g
      return m

    def probe(mode, where):
      on, off = mode
      xv = ch.choice(names)
      yv = ch.choice(names) if ch.chance(0.5) else None
      if made and ch.chance(0.3):
        # A function that was decorated elsewhere.
        m = ch.choice(made)
      else:
        m = make(xv, yv)
        made.append(m)
      cin, cout, const, default = m.cin, m.cout, m.const, m.default

      def raw(v):
        return not isinstance(values[v][0], minikd.DataSlice)

      lazy_x = on and not raw(xv) and ch.chance(0.6)
      lazy_y = on and yv is not None and not raw(yv) and ch.chance(0.5)
      x = Expr('input', 'x') if lazy_x else values[xv][0]
      args, kw = [x], {}
      y = values[default][0]
      if yv is not None:
        y = Expr('input', 'y') if lazy_y else values[yv][0]
        if ch.chance(0.5):
          kw['y'] = y
        else:
          args.append(y)
      given = {'x': xv, 'y': yv or default, 'const': const}
      lazy = {'x': lazy_x, 'y': lazy_y, 'const': False}
      # What must happen.
      checked = not (on and off)
      now_in, now, later = False, False, False  # at the call, at evaluation
      if checked:
        for k, c in cin.items():
          ok = self.sat(c, values[given[k]][1])
          if not lazy[k]:
            now_in |= not ok
          elif self.has_static(c):
            now_in = True
          elif not ok:
            # The check hangs on the argument, which the function may not use.
            later |= m.ret == k
      if checked and cout is not None:
        out = given[m.ret]
        ok = self.sat(cout, values[out][1])
        if not lazy[m.ret]:
          now = not ok or raw(out) or cout[0] == 'static'
        elif self.has_static(cout):
          now = True
        else:
          later |= not ok
      now |= now_in
      sim.log('probe', where, on, off, cin, cout, xv, yv, lazy_x, lazy_y)
      what = (f'{where}: tracing={on} disabled={off} in={cin} out={cout} '
              f'x={xv}{"(lazy)" if lazy_x else ""} y={yv}'
              f'{"(lazy)" if lazy_y else ""} default={default} '
              f'returns={const or m.ret}')
      local.calls = []
      try:
        res = m.f(*args, **kw)
        got = 'ok'
      except TypeError as e:
        got = 'TypeError'
        if not now:
          raise core.Violation(
              'wrong-check', f'{what}: raised {e}') from e
      except core.Violation:
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise core.Violation(
            'unexpected-exception', f'{what}: {type(e).__name__}: {e}') from e
      if len(local.calls) != (0 if now_in else 1):
        raise core.Violation(
            'wrong-call', f'{what}: the function ran {len(local.calls)} times')
      if got == 'ok' and now:
        raise core.Violation('missing-check', f'{what}: not rejected')
      if got != 'ok':
        return
      want = values[const][0] if const else {'x': x, 'y': y}[m.ret]
      if not on and res is not want:
        raise core.Violation('wrong-result', what)
      if isinstance(res, Expr):
        try:
          v = res.eval({'x': values[xv][0],
                        'y': values[yv][0] if yv else None})
          bad = False
        except CheckFailed:
          bad = True
        except Exception as e:  # pylint: disable=broad-except
          raise core.Violation(
              'unexpected-exception',
              f'{what}: evaluation: {type(e).__name__}: {e}') from e
        if bad != later:
          raise core.Violation(
              'missing-check' if later else 'wrong-check',
              f'{what}: evaluating the traced function '
              f'{"fails" if bad else "succeeds"}')
        if not bad and v is not values[given[m.ret]][0]:
          raise core.Violation('wrong-result', what)
      elif later:
        raise core.Violation('missing-check', f'{what}: not in the trace')
      elif res is not want:
        raise core.Violation('wrong-result', what)

    def guard(fn):
      def g():
        try:
          fn()
        except core.Violation as e:
          failures.append(e)
        except Exception as e:  # pylint: disable=broad-except
          failures.append(core.Violation(
              'unexpected-exception', f'{type(e).__name__}: {e}'))
      return g

    def scope(mode, depth, where, kind):
      boom = ch.weighted([6, 2, 1])
      try:
        if kind == 0:
          new = ch.chance(0.7)
          inner = (new, mode[1])
          with tm.enable_tracing(new):
            body(inner, depth + 1, where + '/trace')
            if boom:
              raise _Boom() if boom == 1 else KeyboardInterrupt()
        else:
          inner = (mode[0], True)
          with tc.disable_traced_type_checking():
            body(inner, depth + 1, where + '/disable')
            probe(inner, where + '/disable-end')
            if boom:
              sim.fault('exception-in-scope')
              raise _Boom() if boom == 1 else KeyboardInterrupt()
      except (_Boom, KeyboardInterrupt):
        pass
      probe(mode, where + '/after')

    def body(mode, depth, where):
      for _ in range(1 + ch.pick(4)):
        if budget[0] <= 0:
          return
        budget[0] -= 1
        op = ch.weighted([4, 3, 3, 2, 2, 1])
        if op == 0:
          probe(mode, where)
        elif op in (1, 2) and depth < 4:
          scope(mode, depth, where, op - 1)
        elif op == 3 and depth < 3:
          sim.probe('child-thread')
          th = threading.Thread(target=guard(
              lambda: body((False, False), depth + 1, where + '/thread')))
          th.start()
          pending.append(th)
        elif op == 4 and depth < 3:
          sim.probe('copied-context')
          c = contextvars.copy_context()
          fn = lambda: body(mode, depth + 1, where + '/ctx')
          if ch.chance(0.5):
            th = threading.Thread(target=guard(lambda c=c, fn=fn: c.run(fn)))
            th.start()
            pending.append(th)
          else:
            c.run(fn)
        elif op == 5 and depth < 3:
          coros(mode, where)

    def coros(mode, where):
      sim.probe('coroutines')

      class Pause:

        def __await__(self):
          yield

      async def task(i):
        try:
          with tm.enable_tracing(True):
            with tc.disable_traced_type_checking():
              await Pause()
              probe((True, True), f'{where}/coro{i}')
              if ch.chance(0.3):
                raise _Boom()
            await Pause()
            probe((True, mode[1]), f'{where}/coro{i}-in')
        except _Boom:
          pass
        await Pause()
        probe(mode, f'{where}/coro{i}-out')

      live = [(contextvars.copy_context(), task(i)) for i in range(2)]
      while live:
        k = ch.pick(len(live))
        c, co = live[k]
        try:
          c.run(co.send, None)
        except StopIteration:
          live.pop(k)

    def main():
      ts = [sim.spawn(guard(lambda i=i: body((False, False), 0, f'T{i}')),
                      name=f'T{i}') for i in range(1 + ch.pick(4))]
      for t in ts:
        sim.join(t)
      while pending:
        pending.pop(0).join()
      if failures:
        raise failures[0]
      with tm.enable_tracing(True):
        probe((True, False), 'main-end')

    sim.run(main)
