"""kd.map_py and friends: a thread pool must be invisible in the result.

The whole of py/koladata/operators/py.py runs; the slices it is given are
mini-kd slices, and the few vectorised operators it evaluates are modelled here.
"""

from sim import core
from sim import minikd
from sim import stubload
from sim.scenario import Scenario
from sim.stubload import Anything, module

PY = '/repo/py/koladata/operators/py.py'


class _Boom(Exception):
  pass


class _HardBoom(BaseException):
  pass


class _Cancelled(ValueError):
  pass


class PyObject:

  def __init__(self, v):
    self._v = v

  def py_value(self):
    return self._v

  def __repr__(self):
    return 'PyObject'


class Ctx:
  """A cancellation context."""

  def __init__(self, name):
    self.name = name
    self.cancelled = False



class _Contexts:
  """The cancellation context of each thread."""

  def __init__(self):
    self.by_task = {}

  def current(self):
    return self.by_task.get(core.current_task())

  def run(self, ctx, fn, *args, **kwargs):
    t = core.current_task()
    old = self.by_task.get(t)
    self.by_task[t] = ctx
    try:
      return fn(*args, **kwargs)
    finally:
      self.by_task[t] = old

  def check(self):
    sim = core.current_sim()
    if sim is not None:
      sim.maybe_preempt()
    c = self.current()
    if c is not None and c.cancelled:
      raise _Cancelled('[CANCELLED]')


CONTEXTS = _Contexts()


def _align(*args):
  dims = minikd._common_dims(*[a._dims for a in args])
  return tuple(
      minikd._mk(minikd._expand(a._vals, a._dims, dims), dims, a._schema,
                 a._bag) for a in args)


def _inverse_select(x, cond):
  it = iter(x._vals)
  vals = [next(it) if m is minikd.PRESENT else None for m in cond._vals]
  return minikd._mk(vals, cond._dims, x._schema, x._bag)


def _narrow(x, schema):
  to = schema._vals[0]
  if x._schema is minikd.P_NONE or x._schema == to:
    return minikd._mk(x._vals, x._dims, to)
  if x._schema in minikd._NUM and to in minikd._NUM and all(
      v is None or v == int(v) for v in x._vals):
    return minikd._mk([None if v is None else int(v) for v in x._vals],
                      x._dims, to)
  raise ValueError(f'cannot cast {x._schema} to {to}')


OPS = {
    'kd.slices.align': _align,
    'kd.align': _align,
    'kd.masking.has': minikd.has,
    'kd.has': minikd.has,
    'kd.masking.has_not': minikd.has_not,
    'kd.masking.mask_and': lambda a, b: a & b,
    'kd.masking.apply_mask': lambda a, b: a & b,
    'kd.masking.all': minikd.all_,
    'kd.masking.any': minikd.any_,
    'kd.slices.select': lambda x, m: x.select(m),
    'kd.slices.inverse_select': _inverse_select,
    'kd.schema.internal_cast_to_narrow': _narrow,
    'kd.slices.get_size': lambda x: x.get_size(),
    'kd.slices.size': lambda x: x.get_size(),
}


def _eval_op(name, *args, **kw):
  sim = core.current_sim()
  if sim is not None:
    sim.maybe_preempt()
  if name not in OPS:
    raise core.HarnessError(f'operator {name} is not modelled')
  return OPS[name](*args, **kw)


def _from_py(result, schema, from_dim, dict_as_obj, itemid):
  if from_dim != 1 or itemid is not None:
    raise core.HarnessError('from_py is modelled for one dimension only')
  out = []
  for v in result:
    if isinstance(v, dict):
      v = ('obj' if dict_as_obj else 'dict',) + tuple(v.items())
    out.append(v)
  return minikd._mk(out, ((len(out),),),
                    schema._vals[0] if schema is not None else minikd.P_OBJECT)


def _decorator(*a, **k):
  return lambda fn: fn


def _vectorcall(fn, *args):
  *pos, names = args
  n = len(pos) - len(names)
  return fn(*pos[:n], **dict(zip(names, pos[n:])))


def _bind_op(op, *a, args=(), kwargs=None, **named):
  """Evaluates op right away, as evaluating the bound expression would."""
  order = ['true_fn', 'false_fn', 'fn', 'cond', 'arg']
  lead = [named.pop(n) for n in order if n in named]
  return op(*a, *lead, *args, **named, **(kwargs or {}))


def load():
  minikd.install()

  abc = module(
      'arolla.abc', PyObject=PyObject, vectorcall=_vectorcall,
      bind_op=_bind_op, current_cancellation_context=CONTEXTS.current,
      run_in_cancellation_context=CONTEXTS.run,
      raise_if_cancelled=CONTEXTS.check, PY_OBJECT=Anything())
  arolla = module(
      'arolla.arolla', abc=abc, P=Anything(), M=Anything(),
      optools=module('arolla.optools',
                     constraints=Anything(),
                     fix_trace_args_kwargs=lambda a, k: (a, k)),
      unspecified=lambda: None, AnyQValue=object, QValue=object)
  optools = module(
      'koladata.operators.optools', add_to_registry=_decorator,
      as_py_function_operator=_decorator, as_lambda_operator=_decorator,
      set_namespace_docstring=lambda *a: None)
  stubs = {
      'arolla': module('arolla', arolla=arolla),
      'arolla.arolla': arolla,
      'koladata.base.py_conversions': module(
          'koladata.base.py_conversions',
          clib=module('clib', _from_py=_from_py)),
      'koladata.expr.py_expr_eval_py_ext': module(
          'py_expr_eval_py_ext', eval_op=_eval_op),
      'koladata.operators': module(
          'koladata.operators', optools=optools,
          qtype_utils=Anything(), schema=Anything(), slices=Anything()),
      'koladata.operators.optools': optools,
      'koladata.types': module(
          'koladata.types',
          data_item=module('data_item', DataItem=minikd.DataItem),
          data_slice=module('data_slice', DataSlice=minikd.DataSlice),
          py_boxing=module('py_boxing', as_qvalue=lambda x: (
              x if isinstance(x, minikd.DataSlice) else minikd.item(x))),
          qtypes=Anything(),
          schema_constants=module(
              'schema_constants', INT64=minikd.INT64, INT32=minikd.INT32,
              BOOLEAN=minikd.BOOLEAN, MASK=minikd.MASK, NONE=minikd.NONE,
              SCHEMA=minikd.SCHEMA, OBJECT=minikd.OBJECT)),
  }
  return stubload.load(PY, 'sim_operators_py', stubs)


class MapPy(Scenario):
  step_limit = 400_000
  step_limit_is_violation = True

  def setup(self):
    self.op = load()

  # -- inputs --------------------------------------------------------------
  def gen_dims(self, ch, rank):
    dims, n = [], 1
    for _ in range(rank):
      sizes = tuple(ch.weighted([1, 3, 4, 3, 1]) for _ in range(n))
      dims.append(sizes)
      n = sum(sizes)
    return tuple(dims)

  def gen_slice(self, ch, dims):
    n = minikd._size(dims)
    dense = ch.chance(0.5)
    vals = [None if not dense and ch.chance(0.3) else ch.pick(5)
            for _ in range(n)]
    return minikd._mk(vals, dims, minikd.P_INT64)

  def gen_mask(self, ch, dims):
    p = ch.choice([0.0, 0.5, 0.8, 1.0])
    return minikd._mk(
        [minikd.PRESENT if ch.chance(p) else None
         for _ in range(minikd._size(dims))], dims, minikd.P_MASK)

  def run(self, sim):
    sim.run(lambda: self.main(sim))

  def main(self, sim):
    CONTEXTS.by_task.clear()
    ch = sim.ch
    failures = []
    callers = 1 + ch.weighted([3, 1])

    def caller(i):
      def go():
        try:
          for _ in range(1 + ch.pick(2)):
            self.one_call(sim, f'c{i}')
        except core.Violation as e:
          failures.append(e)
      return go

    tasks = [sim.spawn(caller(i), name=f'caller{i}') for i in range(callers)]
    for t in tasks:
      sim.join(t)
      if t.exc is not None:
        raise t.exc
    if failures:
      raise failures[0]
    # The pools must go away by themselves.
    for t in list(sim.tasks):
      if t.id != 0:
        sim.join(t)

  def one_call(self, sim, name):
    ch = sim.ch
    rank = ch.weighted([1, 4, 3, 2])
    dims = self.gen_dims(ch, rank)
    npos, nkw = 1 + ch.weighted([4, 2, 1]), ch.weighted([5, 2, 1])
    if ch.chance(0.1):
      npos, nkw = 0, 1 + ch.pick(2)
    arg_dims = [dims[:ch.int_between(0, rank)] if ch.chance(0.4) else dims
                for _ in range(npos + nkw)]
    full = ch.pick(npos + nkw)
    arg_dims[full] = dims
    slices = [self.gen_slice(ch, d) for d in arg_dims]
    names = ['p', 'q', 'r'][:nkw]
    pos, kw = slices[:npos], dict(zip(names, slices[npos:]))
    which = ch.weighted([5, 3, 2])
    ndim, include_missing, cond = 0, None, None
    if which == 0:
      if rank and ch.chance(0.4):
        ndim = ch.int_between(1, rank)
      include_missing = ch.choice([None, True, False])
      if ndim:
        include_missing = ch.choice([None, True])
    else:
      cond = self.gen_mask(ch, dims[:ch.int_between(0, rank)]
                           if ch.chance(0.4) else dims)
    max_threads = ch.choice([1, 2, 2, 3, 4, 8, 0])
    schema = ch.choice([None, minikd.INT64])
    dict_as_obj = ch.chance(0.5)
    with_cb = ch.chance(0.6)

    # -- what should be called, and what that gives ------------------------
    exp = [minikd._expand(s._vals, s._dims, dims) for s in slices]
    leaves = minikd._size(dims)
    if ndim:
      nested = [minikd._mk(v, dims, minikd.P_INT64) for v in exp]
      rows = [s.flatten(0, rank - ndim)._nest() for s in nested]
      inputs = list(zip(*rows))
      out_dims = dims[:rank - ndim]
    else:
      inputs = list(zip(*exp))
      out_dims = dims
    marks = ['T'] * len(inputs)
    if which == 0:
      if not ndim and not include_missing:
        marks = ['T' if all(v is not None for v in row) else None
                 for row in inputs]
    else:
      m = minikd._expand(cond._vals, cond._dims, dims)
      other = 'F' if which == 1 else None
      marks = ['T' if v is minikd.PRESENT else other for v in m]

    salt = ch.pick(7)

    def value(mark, row):
      h = sum(
          (i + 3) * len(repr(v)) + (v if isinstance(v, int) else 11)
          for i, v in enumerate(row)) + (5 if mark == 'F' else 0) + salt
      if h % 6 == 0:
        return None
      if h % 6 == 1:
        return {'v': h}
      return h

    def boxed(v):
      if isinstance(v, dict):
        return ('obj' if dict_as_obj else 'dict',) + tuple(v.items())
      return v

    want_calls = sorted(
        repr((mk, row)) for mk, row in zip(marks, inputs) if mk is not None)
    want = [boxed(value(mk, row)) if mk is not None else None
            for mk, row in zip(marks, inputs)]

    # -- faults --------------------------------------------------------------
    ctx = Ctx(name)
    fail_p = ch.choice([0, 0, 0, 0.1, 0.4])
    hard = ch.chance(0.2)
    cb_fail_p = ch.choice([0, 0, 0, 0.2]) if with_cb else 0
    cancel = ch.chance(0.15)
    slow_p = ch.choice([0, 0.3, 0.8])
    stuck_left = [max(0, max_threads - 1 if ch.chance(0.2) else 0)]
    use_stuck = fail_p > 0 and 0 < stuck_left[0] < len(want_calls)
    if use_stuck:
      fail_p = 1.0  # whoever is not stuck fails, which must end the call
    ended = [False]
    gone = object()
    started = []
    after_end = [0]
    running = [0]
    raised = []
    late_items = []
    bad = []
    cb_items = []
    me = core.current_task()

    def body(mark, row):
      try:
        return body_(mark, row)
      except core.Violation as e:
        bad.append(e)  # the pool may drop it
        raise

    def body_(mark, row):
      running[0] += 1
      try:
        if ended[0]:
          after_end[0] += 1
        started.append(repr((mark, row)))
        sim.log('call', mark, repr(row))
        if running[0] > max(1, max_threads):
          raise core.Violation(
              'too-many-threads', f'{running[0]} items at once, max_threads='
              f'{max_threads}')
        t = core.current_task()
        if max_threads <= 1 and t is not me:
          raise core.Violation('wrong-thread', 'max_threads=1 uses a thread')
        if CONTEXTS.current() is not ctx:
          raise core.Violation(
              'lost-context', 'the function does not run in the cancellation '
              'context of the caller')
        if use_stuck and stuck_left[0] > 0:
          stuck_left[0] -= 1
          sim.fault('stuck-item')
          while not ended[0]:
            sim.block(gone)
          return None
        if slow_p and ch.chance(slow_p):
          sim.fault('slow-item')
          sim.sleep(ch.pick(20) / 10)
        else:
          sim.yield_point()
        if fail_p and ch.chance(fail_p):
          sim.fault('function-fails')
          e = _HardBoom() if hard else _Boom()
          raised.append(e)
          raise e
        return value(mark, row)
      finally:
        running[0] -= 1
        if ctx.cancelled:
          late_items.append(1)

    def split(mark):
      def fn(*a, **k):
        if list(k) != names or len(a) != npos:
          bad.append(core.Violation(
              'wrong-arguments', f'{len(a)} positional, keywords {list(k)}'))
          raise bad[0]
        return body(mark, tuple(a) + tuple(k.values()))
      return fn

    def callback(x):
      if core.current_task() is not me:
        raise core.Violation('callback-thread',
                             'callback not in the thread of the caller')
      cb_items.append(x)
      sim.log('cb', repr(x))
      sim.yield_point()
      if cb_fail_p and ch.chance(cb_fail_p):
        sim.fault('callback-fails')
        e = _Boom()
        raised.append(e)
        raise e

    if cancel:
      def killer():
        sim.sleep(ch.pick(30) / 10)
        ctx.cancelled = True
        sim.fault('cancelled')
      sim.spawn(killer, name='killer')

    box = minikd.item
    common = dict(
        schema=schema if schema is not None else box(None),
        max_threads=box(max_threads), dict_as_obj=box(dict_as_obj),
        item_completed_callback=(
            PyObject(callback) if with_cb else box(None)))

    def call():
      if which == 0:
        return self.op.map_py(
            PyObject(split('T')), *pos, ndim=box(ndim),
            include_missing=box(include_missing), **common, **kw)
      if which == 1:
        return self.op.map_py_on_cond(
            PyObject(split('T')), PyObject(split('F')), cond, *pos,
            **common, **kw)
      return self.op.map_py_on_selected(
          PyObject(split('T')), cond, *pos, **common, **kw)

    sim.log('map', which, max_threads, leaves, ndim, repr(want))
    err = res = None
    old_settings = CONTEXTS.by_task.get(me)
    try:
      res = CONTEXTS.run(ctx, call)
    except (_Boom, _HardBoom, _Cancelled) as e:
      err = e
    except (core.Violation, core.HarnessError):
      raise
    except Exception as e:  # pylint: disable=broad-except
      raise core.Violation(
          'unexpected-exception', f'{type(e).__name__}: {e}') from e
    was_cancelled = ctx.cancelled
    n_started = len(started)
    ended[0] = True
    sim.wake_waiters(gone)
    what = (f'{["map_py", "map_py_on_cond", "map_py_on_selected"][which]}'
            f'(max_threads={max_threads}, ndim={ndim})')
    if CONTEXTS.by_task.get(me) is not old_settings:
      raise core.HarnessError('context not restored')
    if err is None:
      if late_items and max_threads > 1:
        raise core.Violation(
            'cancellation-ignored', f'{what} returned although it was '
            'cancelled before its last item finished')
      if raised:
        raise core.Violation('error-lost', f'{what}: a function failed, but '
                             'the call returned')
      if not isinstance(res, minikd.DataSlice):
        raise core.Violation('wrong-result', f'{what} gave {type(res)}')
      if res._dims != out_dims:
        raise core.Violation(
            'wrong-shape', f'{what}: got {res._dims}, want {out_dims}')
      if res._vals != want:
        raise core.Violation(
            'wrong-result', f'{what}: got {res._vals}, want {want}')
      ws = minikd.P_INT64 if schema is not None else minikd.P_OBJECT
      if res._schema != ws:
        raise core.Violation(
            'wrong-schema', f'{what}: got {res._schema}, want {ws}')
      if sorted(started) != want_calls:
        raise core.Violation(
            'wrong-calls', f'{what}: called {sorted(started)}, want '
            f'{want_calls}')
      if with_cb:
        got = sorted(repr(boxed(x)) for x in cb_items)
        w = sorted(repr(v) for v, mk in zip(want, marks) if mk is not None)
        if got != w:
          raise core.Violation(
              'wrong-callbacks', f'{what}: callback saw {got}, want {w}')
    else:
      if isinstance(err, _Cancelled):
        if not was_cancelled:
          raise core.Violation('phantom-cancel', f'{what} cancelled by none')
      elif not any(err is e for e in raised):
        raise core.Violation('wrong-error', f'{what}: {err!r} was not raised')
      n = sum(mk is not None for mk in marks)
      if len(started) > n:
        raise core.Violation('wrong-calls', f'{what}: {len(started)} > {n}')
    # Only what the workers already had in hand may still begin.
    sim.sleep(50)
    if bad:
      raise bad[0]
    late = len(started) - n_started
    if err is None and late:
      raise core.Violation('late-call', f'{what}: {late} calls after the end')
    if late > max(0, max_threads):
      raise core.Violation(
          'late-call', f'{what}: {late} items were begun after it had raised')
    if len(set(started)) and any(
        started.count(c) > want_calls.count(c) for c in set(started)):
      raise core.Violation('wrong-calls', f'{what}: called too often')
