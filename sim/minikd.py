"""A small pure-Python stand-in for the compiled part of koladata.kd.

It implements the subset of Koda semantics that the storage layer relies on:
jagged slices, entities, lists, dicts, schemas with item ids, data bags as sets
of (object, attribute) facts with priorities, extraction and stubs. It exists
so that the real storage code can run in the simulator; the repository's own
storage tests are run against it to validate it (tools/validate_minikd.sh).
"""

import hashlib
import pickle
import sys
import types as pytypes
import zlib


class _Marker:

  def __init__(self, name):
    self.name = name

  def __repr__(self):
    return self.name

  def __reduce__(self):
    return (_marker, (self.name,))


_MARKERS = {}


def _marker(name):
  if name not in _MARKERS:
    _MARKERS[name] = _Marker(name)
  return _MARKERS[name]


REMOVED = _marker('REMOVED')
PRESENT = _marker('present')


class Prim:
  """A schema without an item id."""

  _all = {}
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name
    Prim._all[name] = self

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return self.name

  def __reduce__(self):
    return (_prim, (self.name,))


def _prim(name):
  return Prim._all[name]


P_INT32 = Prim('INT32')
P_INT64 = Prim('INT64')
P_FLOAT32 = Prim('FLOAT32')
P_FLOAT64 = Prim('FLOAT64')
P_STRING = Prim('STRING')
P_BYTES = Prim('BYTES')
P_BOOLEAN = Prim('BOOLEAN')
P_MASK = Prim('MASK')
P_EXPR = Prim('EXPR')
P_ITEMID = Prim('ITEMID')
P_SCHEMA = Prim('SCHEMA')
P_OBJECT = Prim('OBJECT')
P_NONE = Prim('NONE')
_PRIMITIVES = (P_INT32, P_INT64, P_FLOAT32, P_FLOAT64, P_STRING, P_BYTES,
               P_BOOLEAN, P_MASK, P_EXPR)


class ItemId:
  """kind is 'e', 'l', 'd' (objects) or 'S', 'SL', 'SD' (schemas)."""

  __slots__ = ('kind', 'uid', '_h')

  def __init__(self, kind, uid):
    self.kind = kind
    self.uid = uid
    self._h = hash((kind, uid))

  def __hash__(self):
    return self._h

  def __eq__(self, other):
    return (isinstance(other, ItemId) and self.kind == other.kind
            and self.uid == other.uid)

  def __repr__(self):
    return f'{self.kind}:{self.uid}'

  def __reduce__(self):
    return (ItemId, (self.kind, self.uid))

  @property
  def is_schema(self):
    return self.kind[0] == 'S'


_B62 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'


def _encode(i):
  n = int.from_bytes(
      hashlib.blake2b(repr((i.kind, i.uid)).encode(), digest_size=16).digest(),
      'big')
  s = ''
  while n:
    n, r = divmod(n, 62)
    s = _B62[r] + s
  return s.zfill(22)


_counter = [0]


def _alloc(kind):
  _counter[0] += 1
  return ItemId(kind, _counter[0])


def _uu(kind, *parts):
  return ItemId(
      kind, 'u' + hashlib.blake2b(
          repr(parts).encode(), digest_size=10).hexdigest())


_META = ('__schema_name__', '__schema_metadata__')


class DataBag:
  """Facts: objs[object][attr] = value, lists[list], dicts[dict][key]."""

  __slots__ = ('objs', 'lists', 'dicts', 'mutable')

  def __init__(self):
    self.objs = {}
    self.lists = {}
    self.dicts = {}
    self.mutable = False

  def _copy(self):
    b = DataBag()
    b.objs = {k: dict(v) for k, v in self.objs.items()}
    b.lists = dict(self.lists)
    b.dicts = {k: dict(v) for k, v in self.dicts.items()}
    return b

  def _overlay(self, other):
    """Facts of other take priority. In place."""
    for k, v in other.objs.items():
      self.objs.setdefault(k, {}).update(v)
    self.lists.update(other.lists)
    for k, v in other.dicts.items():
      self.dicts.setdefault(k, {}).update(v)
    return self

  def set(self, obj, attr, value):
    self.objs.setdefault(obj, {})[attr] = REMOVED if value is None else value

  def attr(self, obj, attr):
    return self.objs.get(obj, {}).get(attr)

  def contents(self):
    """A comparable snapshot."""
    return (
        {(k, a): x for k, v in self.objs.items() for a, x in v.items()},
        dict(self.lists),
        {(k, a): x for k, v in self.dicts.items() for a, x in v.items()})

  def get_approx_byte_size(self):
    n = 16
    for v in self.objs.values():
      n += 24 * len(v)
    for v in self.lists.values():
      n += 8 + 16 * len(v)
    for v in self.dicts.values():
      n += 8 + 32 * len(v)
    return n

  def merge_fallbacks(self):
    return self

  def is_mutable(self):
    return self.mutable

  def freeze(self):
    return self

  def get_fallbacks(self):
    return []

  def is_empty(self):
    return not (self.objs or self.lists or self.dicts)

  def dict(self, items=None, *, key_schema=None, value_schema=None, **kw):
    d = dict_(items if items is not None else {}, key_schema=key_schema,
              value_schema=value_schema, **kw)
    self._overlay(d._bag)
    return _mk([d._vals[0]], (), d._schema, self)

  def list(self, *a, **kw):
    return self._own(list_(*a, **kw))

  def new(self, *a, **kw):
    return self._own(new(*a, **kw))

  def _own(self, x):
    self._overlay(x._bag)
    return x.with_bag(self)

  def __repr__(self):
    return f'DataBag({self.contents()})'

  def _key(self):
    return repr(self.contents())

  def __lshift__(self, other):
    return bags_updated(self, other)

  def __rshift__(self, other):
    return bags_enriched(self, other)


def bags_updated(*bags):
  """Later bags have priority."""
  out = DataBag()
  for b in bags:
    if b is not None:
      out._overlay(b)
  return out


def bags_enriched(*bags):
  """Earlier bags have priority."""
  return bags_updated(*reversed(bags))


def bag():
  return DataBag()


def mutable_bag():
  b = DataBag()
  b.mutable = True
  return b


class Shape:

  __slots__ = ('dims',)

  def __init__(self, dims):
    self.dims = tuple(tuple(d) for d in dims)

  def __eq__(self, o):
    return isinstance(o, Shape) and self.dims == o.dims

  def rank(self):
    return len(self.dims)

  def __getitem__(self, i):
    return type(self)(self.dims[i])

  @property
  def size(self):
    return sum(self.dims[-1]) if self.dims else 1


class JaggedShape(Shape):
  pass


def _size(dims):
  return sum(dims[-1]) if dims else 1


def _expand(vals, dims, to):
  """Repeats vals of shape dims (a prefix of to) into shape to."""
  if dims == to:
    return list(vals)
  if to[:len(dims)] != dims:
    raise ValueError(f'shapes are not compatible: {dims} vs {to}')
  cur = list(vals)
  for sizes in to[len(dims):]:
    nxt = []
    for v, n in zip(cur, sizes):
      nxt.extend([v] * n)
    cur = nxt
  return cur


def _common_dims(*dims):
  best = ()
  for d in dims:
    if len(d) > len(best):
      best = d
  for d in dims:
    if best[:len(d)] != d:
      raise ValueError(f'shapes are not compatible: {dims}')
  return best


def _kind(s, b):
  """Without facts about items or keys, a schema is that of an entity."""
  if s.kind == 'SL' and (b is None or b.attr(s, '__items__') is None):
    return 'S'
  if s.kind == 'SD' and (b is None or b.attr(s, '__keys__') is None):
    return 'S'
  return s.kind


def _struct(schema):
  return isinstance(schema, ItemId)


def _mk(vals, dims, schema, bag=None):
  """Makes a slice of the right class."""
  if dims == ():
    if schema is P_SCHEMA:
      cls = SchemaItem
    elif _struct(schema) and schema.kind == 'SD':
      cls = DictItem
    elif _struct(schema) and schema.kind == 'SL':
      cls = ListItem
    else:
      cls = DataItem
  else:
    cls = DataSlice
  s = object.__new__(cls)
  s._vals = list(vals)
  s._dims = dims
  s._schema = schema
  s._bag = bag
  return s


def _attr_error(e):
  return AttributeError(str(e))


class DataSlice:
  """A jagged array of values with a schema and possibly a bag."""

  # -- basics --------------------------------------------------------------
  def get_bag(self):
    return self._bag

  @property
  def db(self):
    return self._bag

  def has_bag(self):
    return item(bool(self._bag is not None), mask=True)

  def no_bag(self):
    return _mk(self._vals, self._dims, self._schema, None)

  def with_bag(self, b):
    return _mk(self._vals, self._dims, self._schema, b)

  def freeze_bag(self):
    return self

  def fork_bag(self):
    b = self._bag._copy()
    b.mutable = True
    return self.with_bag(b)

  def get_schema(self):
    return _mk([self._schema], (), P_SCHEMA, self._bag)

  def get_shape(self):
    return JaggedShape(self._dims)

  def get_ndim(self):
    return item(len(self._dims), schema=P_INT64)

  def get_size(self):
    return item(len(self._vals), schema=P_INT64)

  def get_present_count(self):
    return item(sum(v is not None for v in self._vals), schema=P_INT64)

  def is_empty(self):
    return all(v is None for v in self._vals)

  def flatten(self, from_dim=0, to_dim=None):
    rank = len(self._dims)
    to_dim = rank if to_dim is None else int(to_dim)
    from_dim = int(from_dim)
    if to_dim < from_dim:
      to_dim = from_dim
    if to_dim == from_dim:  # inserts a dimension of size 1
      n = sum(self._dims[from_dim - 1]) if from_dim else 1
      mid = (1,) * n
    else:
      inner = [1] * sum(self._dims[to_dim - 1])
      for sizes in reversed(self._dims[from_dim:to_dim]):
        nxt, i = [], 0
        for n in sizes:
          nxt.append(sum(inner[i:i + n]))
          i += n
        inner = nxt
      mid = tuple(inner)
    return _mk(self._vals, self._dims[:from_dim] + (mid,) + self._dims[to_dim:],
               self._schema, self._bag)

  def reshape(self, shape):
    if shape.size != len(self._vals):
      raise ValueError(f'cannot reshape {self._dims} to {shape.dims}')
    return _mk(self._vals, shape.dims, self._schema, self._bag)

  @classmethod
  def from_vals(cls, v, schema=None):
    return slice_(v, schema) if isinstance(v, list) else item(v, schema)

  def get_itemid(self):
    if self._schema is P_SCHEMA:
      if any(isinstance(v, Prim) for v in self._vals):
        raise ValueError('cannot get ItemIds of primitive schemas')
    elif not (_struct(self._schema) or self._schema in (P_ITEMID, P_NONE)):
      if self._schema is P_OBJECT:
        if any(v is not None and not isinstance(v, ItemId) for v in self._vals):
          raise ValueError('cannot get ItemIds of primitives')
      else:
        raise ValueError(
            f'casting from {self._schema} to ITEMID is not supported')
    return _mk(self._vals, self._dims, P_ITEMID, self._bag)

  @property
  def L(self):
    return self._rows()

  @property
  def S(self):
    return _Subscript(self)

  def expand_to(self, other):
    return _mk(_expand(self._vals, self._dims, other._dims), other._dims,
               self._schema, self._bag)

  def select(self, mask, expand_filter=True):
    if callable(mask):
      mask = mask(self)
    dims = self._dims
    keep = _expand(mask._vals, mask._dims, dims)
    vals, sizes, i = [], [], 0
    for n in dims[-1]:
      sel = [v for v, k in zip(self._vals[i:i + n], keep[i:i + n])
             if k is PRESENT]
      vals.extend(sel)
      sizes.append(len(sel))
      i += n
    return _mk(vals, dims[:-1] + (tuple(sizes),), self._schema, self._bag)

  def __mod__(self, other):
    vals, dims = self._arith(as_slice(other), lambda x, y: x % y)
    return _mk(vals, dims, self._schema)

  def __sub__(self, other):
    vals, dims = self._arith(as_slice(other), lambda x, y: x - y)
    return _mk(vals, dims, self._schema)

  def __le__(self, other):
    vals, dims = self._arith(other, lambda x, y: PRESENT if x <= y else None)
    return _mk(vals, dims, P_MASK)

  def __ge__(self, other):
    vals, dims = self._arith(other, lambda x, y: PRESENT if x >= y else None)
    return _mk(vals, dims, P_MASK)

  def _rows(self):
    if not self._dims:
      raise ValueError('not a slice with dimensions')
    if len(self._dims) == 1:
      return [_mk([v], (), self._schema, self._bag) for v in self._vals]
    out = []
    n = self._dims[0][0]
    # Compute, for every top level row, its extent at every level.
    for r in range(n):
      lo, hi = r, r + 1
      dims = []
      for lvl in range(1, len(self._dims)):
        sizes = self._dims[lvl]
        start = sum(sizes[:lo])
        dims.append(tuple(sizes[lo:hi]))
        lo, hi = start, start + sum(sizes[lo:hi])
      out.append(_mk(self._vals[lo:hi], tuple(dims), self._schema, self._bag))
    return out

  def __len__(self):
    if not self._dims:
      raise TypeError('item has no len')
    return self._dims[0][0]

  def __iter__(self):
    return iter(self._rows())

  def __str__(self):
    return str(self._nest())

  def __repr__(self):
    return f'DataSlice({self._nest()}, schema: {self._schema}, dims={self._dims})'

  def _nest(self, f=lambda v: v):
    cur = [f(v) for v in self._vals]
    if not self._dims:
      return cur[0]
    for sizes in reversed(self._dims[1:]):
      nxt, i = [], 0
      for n in sizes:
        nxt.append(cur[i:i + n])
        i += n
      cur = nxt
    return cur

  # -- comparison and masks ------------------------------------------------
  def _binary(self, other, fn):
    other = as_slice(other)
    dims = _common_dims(self._dims, other._dims)
    a = _expand(self._vals, self._dims, dims)
    b = _expand(other._vals, other._dims, dims)
    return [fn(x, y) for x, y in zip(a, b)], dims

  def __eq__(self, other):
    try:
      vals, dims = self._binary(
          other, lambda x, y: PRESENT if x is not None and y is not None
          and x == y else None)
    except (TypeError, ValueError):
      return NotImplemented
    return _mk(vals, dims, P_MASK)

  def __ne__(self, other):
    vals, dims = self._binary(
        other, lambda x, y: PRESENT if x is not None and y is not None
        and x != y else None)
    return _mk(vals, dims, P_MASK)

  __hash__ = None

  def __and__(self, mask):
    if mask._schema is not P_MASK:
      raise ValueError('expected a MASK')
    vals, dims = self._binary(mask, lambda x, m: x if m is PRESENT else None)
    return _mk(vals, dims, self._schema, self._bag)

  def __or__(self, other):
    other = as_slice(other)
    vals, dims = self._binary(other, lambda x, y: y if x is None else x)
    b = self._bag
    if other._bag is not None and other._bag is not b:
      b = bags_enriched(self._bag, other.extract()._bag)
    return _mk(vals, dims, _common_schema(self._schema, other._schema), b)

  def __invert__(self):
    if self._schema is not P_MASK:
      raise ValueError('expected a MASK')
    return _mk([None if v is PRESENT else PRESENT for v in self._vals],
               self._dims, P_MASK)

  def _arith(self, other, fn):
    vals, dims = self._binary(
        other, lambda x, y: None if x is None or y is None else fn(x, y))
    return vals, dims

  def __add__(self, other):
    o = as_slice(other)
    vals, dims = self._arith(o, lambda x, y: x + y)
    return _mk(vals, dims, _common_schema(self._schema, o._schema))

  def __mul__(self, other):
    o = as_slice(other)
    vals, dims = self._arith(o, lambda x, y: x * y)
    return _mk(vals, dims, _common_schema(self._schema, o._schema))

  def __gt__(self, other):
    vals, dims = self._arith(other, lambda x, y: PRESENT if x > y else None)
    return _mk(vals, dims, P_MASK)

  def __lt__(self, other):
    vals, dims = self._arith(other, lambda x, y: PRESENT if x < y else None)
    return _mk(vals, dims, P_MASK)

  def __bool__(self):
    if self._dims:
      raise ValueError('the truth value of a slice is ambiguous')
    if self._schema not in (P_MASK, P_BOOLEAN):
      raise ValueError('Cannot cast a non-MASK DataItem to bool')
    v = self._vals[0]
    return v is PRESENT or v is True

  # -- schema predicates ---------------------------------------------------
  def _schema_pred(self, fn):
    if self._schema is not P_SCHEMA or self._dims:
      return item(False, mask=True)
    return item(bool(fn(self._vals[0])), mask=True)

  def is_entity_schema(self):
    return self._schema_pred(
        lambda s: _struct(s) and _kind(s, self._bag) == 'S')

  def is_list_schema(self):
    return self._schema_pred(
        lambda s: _struct(s) and _kind(s, self._bag) == 'SL')

  def is_dict_schema(self):
    return self._schema_pred(
        lambda s: _struct(s) and _kind(s, self._bag) == 'SD')

  def is_struct_schema(self):
    return self._schema_pred(_struct)

  def is_primitive_schema(self):
    return self._schema_pred(lambda s: s in _PRIMITIVES)

  def is_primitive(self):
    if self._schema is P_OBJECT:
      return item(all(v is None or not isinstance(v, (ItemId, Prim))
                      for v in self._vals), mask=True)
    return item(self._schema in _PRIMITIVES, mask=True)

  def is_entity(self):
    return self.get_schema().is_entity_schema()

  def is_list(self):
    return self.get_schema().is_list_schema()

  def is_dict(self):
    return self.get_schema().is_dict_schema()

  def get_item_schema(self):
    return self.get_attr('__items__')

  def get_key_schema(self):
    return self.get_attr('__keys__')

  def get_value_schema(self):
    return self.get_attr('__values__')

  def new(self, **attrs):
    return new(schema=self, **attrs)

  # -- attributes ----------------------------------------------------------
  def _attr_schema(self, attr):
    """Schema of an attribute, or None."""
    if self._bag is None:
      return None
    if self._schema is P_OBJECT:
      out = None
      for v in self._vals:
        if v is None:
          continue
        s = self._bag.attr(v, '__schema__')
        t = self._bag.attr(s, attr) if s is not None else None
        if t in (None, REMOVED):
          return None
        out = t if out is None else _common_schema(out, t)
      return out
    if not _struct(self._schema):
      return None
    s = self._bag.attr(self._schema, attr)
    return None if s is REMOVED else s

  def get_attr(self, attr, *default):
    b = self._bag
    if isinstance(attr, DataSlice):
      attr = attr._vals[0]
    if self._schema is P_SCHEMA:
      out = []
      found = False
      for v in self._vals:
        x = b.attr(v, attr) if b is not None and isinstance(v, ItemId) else None
        x = None if x is REMOVED else x
        found = found or x is not None
        out.append(x)
      if not found and any(v is not None for v in self._vals):
        if default:
          return as_slice(default[0])
        raise ValueError(
            f"failed to get attribute '{attr}': the attribute '{attr}' is "
            'missing on the schema')
      schema = {'__schema_name__': P_STRING,
                '__schema_metadata__': P_OBJECT}.get(attr, P_SCHEMA)
      return _mk(out, self._dims, schema, b)
    if b is None:
      raise ValueError(
          f"failed to get attribute '{attr}': the DataSlice is without a bag")
    schema = self._attr_schema(attr)
    if schema is None:
      if self._schema is P_OBJECT and self.is_empty():
        return _mk([None] * len(self._vals), self._dims, P_NONE, b)
      if default:
        d = as_slice(default[0])
        return _mk(_expand(d._vals, d._dims, self._dims), self._dims, d._schema,
                   d._bag)
      raise ValueError(
          f"failed to get attribute '{attr}': the attribute '{attr}' is "
          'missing')
    out = []
    for v in self._vals:
      x = None if v is None else b.attr(v, attr)
      out.append(None if x is REMOVED else x)
    return _mk(out, self._dims, schema, b)

  def __getattr__(self, name):
    if name.startswith('__') or name in ('_vals', '_dims', '_schema', '_bag'):
      raise AttributeError(name)
    try:
      return self.get_attr(name)
    except ValueError as e:
      raise _attr_error(e) from e

  def maybe(self, attr):
    return maybe(self, attr)

  def has_attr(self, attr):
    return has_attr(self, attr)

  def with_attrs(self, *, overwrite_schema=False, **kw):
    return self.updated(attrs(self, overwrite_schema=overwrite_schema, **kw))

  def with_attr(self, name, value, overwrite_schema=False):
    return self.with_attrs(overwrite_schema=overwrite_schema, **{name: value})

  def get_attr_names(self, intersection=True):
    return dir_(self)

  def updated(self, *bags):
    if self._bag is None and not bags:
      return self
    return self.with_bag(bags_updated(self._bag, *bags))

  def enriched(self, *bags):
    return self.with_bag(bags_enriched(self._bag, *bags))

  # -- lists and dicts -----------------------------------------------------
  def explode(self, ndim=1):
    r = self
    for _ in range(ndim):
      r = r._explode()
    return r

  def _explode(self):
    if self._schema is P_NONE:
      return _mk([], self._dims + (tuple(0 for _ in self._vals),), P_NONE,
                 self._bag)
    schema = self._attr_schema('__items__')
    if schema is None:
      raise ValueError(
          f"the attribute '__items__' is missing on the schema {self._schema}")
    vals, sizes = [], []
    for v in self._vals:
      x = () if v is None else self._bag.lists.get(v, ())
      vals.extend(x)
      sizes.append(len(x))
    return _mk(vals, self._dims + (tuple(sizes),), schema, self._bag)

  def implode(self, ndim=1, itemid=None):
    r = self
    for _ in range(len(self._dims) if ndim == -1 else ndim):
      r = r._implode(itemid)
    return r

  def _implode(self, itemid=None):
    if not self._dims:
      raise ValueError('cannot implode an item')
    sizes = self._dims[-1]
    dims = self._dims[:-1]
    if itemid is None:
      ids = [_alloc('l') for _ in sizes]
    else:
      ids = _expand(itemid._vals, itemid._dims, dims)
    b = self._adoptable()
    schema = _list_schema_id(self._schema)
    b.set(schema, '__items__', self._schema)
    i = 0
    for l, n in zip(ids, sizes):
      if l is not None:
        b.lists[l] = tuple(self._vals[i:i + n])
      i += n
    return _mk(ids, dims, schema, b)

  def get_keys(self):
    schema = self._attr_schema('__keys__')
    if schema is None:
      raise ValueError("the attribute '__keys__' is missing on the schema")
    vals, sizes = [], []
    for v in self._vals:
      d = {} if v is None else self._bag.dicts.get(v, {})
      ks = sorted((k for k, x in d.items() if x is not REMOVED), key=_sort_key)
      vals.extend(ks)
      sizes.append(len(ks))
    return _mk(vals, self._dims + (tuple(sizes),), schema, self._bag)

  def get_values(self, keys=None):
    if keys is not None:
      return self[keys]
    schema = self._attr_schema('__values__')
    if schema is None:
      raise ValueError("the attribute '__values__' is missing on the schema")
    vals, sizes = [], []
    for v in self._vals:
      d = {} if v is None else self._bag.dicts.get(v, {})
      ks = sorted((k for k, x in d.items() if x is not REMOVED), key=_sort_key)
      vals.extend(d[k] for k in ks)
      sizes.append(len(ks))
    return _mk(vals, self._dims + (tuple(sizes),), schema, self._bag)

  def __getitem__(self, key):
    kind = self._schema.kind if _struct(self._schema) else None
    if kind == 'SL':
      if isinstance(key, slice_type):
        if key == slice_type(None):
          return self._explode()
        raise NotImplementedError(key)
      if isinstance(key, int):
        key = item(key)
      schema = self._attr_schema('__items__')
      vals, dims = self._binary(key, self._list_at)
      return _mk(vals, dims, schema, self._bag)
    if kind == 'SD':
      key = as_slice(key)
      schema = self._attr_schema('__values__')

      def get(d, k):
        if d is None or k is None:
          return None
        x = self._bag.dicts.get(d, {}).get(k)
        return None if x is REMOVED else x

      vals, dims = self._binary(key, get)
      return _mk(vals, dims, schema, self._bag)
    raise ValueError(f'cannot index into schema {self._schema}')

  def _list_at(self, l, i):
    if l is None or i is None:
      return None
    x = self._bag.lists.get(l, ())
    return x[i] if -len(x) <= i < len(x) else None

  def __setitem__(self, key, value):
    if not self._bag.mutable:
      raise ValueError('the DataBag is immutable')
    key, value = as_slice(key), as_slice(value)
    dims = _common_dims(self._dims, key._dims, value._dims)
    for d, k, v in zip(_expand(self._vals, self._dims, dims),
                       _expand(key._vals, key._dims, dims),
                       _expand(value._vals, value._dims, dims)):
      if d is not None and k is not None:
        self._bag.dicts.setdefault(d, {})[k] = REMOVED if v is None else v

  # -- extraction ----------------------------------------------------------
  def _adoptable(self):
    """A fresh bag with what is needed to use this slice elsewhere."""
    if self._bag is None:
      return DataBag()
    return _extract(self._vals, self._schema, self._bag)

  def with_schema(self, schema):
    s, sb = _schema_val(schema)
    b = self._bag
    if sb is not None and sb is not b:
      b = bags_updated(b, _extract([], s, sb))
    return _mk(self._vals, self._dims, s, b)

  def extract(self, schema=None):
    if schema is not None:
      # Data of this slice, seen through the given schema only.
      s, sb = _schema_val(schema)
      data = self._bag._copy()
      for k in [k for k in data.objs if k.is_schema]:
        del data.objs[k]
      data._overlay(_extract([], s, sb) if sb is not None else DataBag())
      return _mk(self._vals, self._dims, s, _extract(self._vals, s, data))
    if self._bag is None:
      if not _struct(self._schema):
        raise ValueError('cannot extract without a DataBag')
      raise ValueError('cannot extract without a DataBag')
    return self.with_bag(_extract(self._vals, self._schema, self._bag))

  def extract_update(self):
    return self.extract()._bag

  def stub(self, attrs=None):
    if self._bag is None:
      return self
    out = DataBag()
    _stub(self._vals, self._schema, self._bag, out)
    return self.with_bag(out)

  def clone(self):
    raise NotImplementedError

  # -- conversion ----------------------------------------------------------
  def to_py(self, max_depth=2, obj_as_dict=False, include_missing_attrs=True):
    del obj_as_dict, include_missing_attrs
    return self._to(max_depth)

  def to_pytree(self, max_depth=2, include_missing_attrs=True):
    del include_missing_attrs
    return self._to(max_depth)

  def _to(self, max_depth):
    b = self._bag

    def conv(v, schema, depth):
      if v is None:
        return None
      if schema is P_OBJECT and isinstance(v, ItemId):
        schema = b.attr(v, '__schema__')
      if schema is P_SCHEMA or isinstance(v, Prim):
        return _mk([v], (), P_SCHEMA, b)
      if schema is P_MASK:
        return _mk([v], (), P_MASK)
      if not isinstance(v, ItemId) or schema is P_ITEMID:
        return v if not isinstance(v, ItemId) else _mk([v], (), P_ITEMID, b)
      if depth == 0:
        return _mk([v], (), schema, b)
      if schema.kind == 'SL':
        s = b.attr(schema, '__items__')
        return [conv(x, s, depth - 1) for x in b.lists.get(v, ())]
      if schema.kind == 'SD':
        ks, vs = b.attr(schema, '__keys__'), b.attr(schema, '__values__')
        return {conv(k, ks, depth - 1): conv(x, vs, depth - 1)
                for k, x in sorted(b.dicts.get(v, {}).items(),
                                   key=lambda kv: _sort_key(kv[0]))
                if x is not REMOVED}
      out = {}
      for a in sorted(b.objs.get(schema, {})):
        s = b.attr(schema, a)
        if a in _META or s is REMOVED:
          continue
        x = b.attr(v, a)
        out[a] = conv(None if x is REMOVED else x, s, depth - 1)
      return out

    return self._nest(lambda v: conv(v, self._schema, max_depth))

  def internal_as_py(self):
    return self._nest(
        lambda v: _mk([v], (), self._schema, self._bag)
        if isinstance(v, (ItemId, Prim)) else v)


slice_type = slice


class _Subscript:

  def __init__(self, ds):
    self.ds = ds

  def __getitem__(self, i):
    if not isinstance(i, int):
      raise NotImplementedError(i)
    ds = self.ds
    vals, j = [], 0
    for n in ds._dims[-1]:
      vals.append(ds._vals[j + i] if -n <= i < n else None)
      j += n
    return _mk(vals, ds._dims[:-1], ds._schema, ds._bag)


class DataItem(DataSlice):

  def __hash__(self):
    return hash((repr(self._vals[0]), repr(self._schema)))

  def __repr__(self):
    v = self._vals[0]
    if self._schema is P_SCHEMA:
      return _schema_str(v, self._bag)
    return f'DataItem({v!r}, schema: {_schema_str(self._schema, self._bag)})'

  def __str__(self):
    v = self._vals[0]
    if self._schema is P_SCHEMA:
      return _schema_str(v, self._bag)
    if isinstance(v, ItemId) and v.kind == 'e':
      return 'Entity(' + ', '.join(
          f'{a}={self._bag.attr(v, a)!r}'
          for a in (dir_(self) if self._bag is not None else [])) + ')'
    return str(v)

  def __int__(self):
    return int(self._vals[0])

  def __index__(self):
    return int(self._vals[0])


class SchemaItem(DataItem):

  def __hash__(self):
    return hash(repr(self._vals[0]))

  def __call__(self, x):
    return as_slice(x)


class DictItem(DataItem):

  __hash__ = DataItem.__hash__


class ListItem(DataItem):

  __hash__ = DataItem.__hash__

  def __len__(self):
    return len(self._bag.lists.get(self._vals[0], ()))

  def __iter__(self):
    return iter(self._explode())


def _schema_str(s, b, depth=0):
  if depth > 8:
    return '...'
  if isinstance(s, Prim):
    return s.name
  if s is None:
    return 'None'
  if b is None:
    return f'SCHEMA({_encode(s)})'
  if s.kind == 'SL':
    return f'LIST[{_schema_str(b.attr(s, "__items__"), b, depth + 1)}]'
  if s.kind == 'SD':
    return (f'DICT{{{_schema_str(b.attr(s, "__keys__"), b, depth + 1)}, '
            f'{_schema_str(b.attr(s, "__values__"), b, depth + 1)}}}')
  name = b.attr(s, '__schema_name__')
  attrs = sorted(a for a in b.objs.get(s, {}) if a not in _META)

  def inner(a):
    x = b.attr(s, a)
    if isinstance(x, ItemId) and x.kind == 'S':
      n = b.attr(x, '__schema_name__')
      return f'{n}(...)' if n else 'ENTITY(...)'
    return _schema_str(x, b, depth + 1)

  return f'{name or "ENTITY"}(' + ', '.join(
      f'{a}={inner(a)}' for a in attrs) + ')'


def _sort_key(v):
  return (type(v).__name__, v if isinstance(v, (int, float, str, bytes))
          else repr(v))


def _extract(vals, schema, b):
  """All facts reachable from vals (of the given schema) in bag b."""
  out = DataBag()
  seen_schema = set()
  seen = set()
  work = []

  def visit_schema(s):
    if not isinstance(s, ItemId) or s in seen_schema:
      return
    seen_schema.add(s)
    for a, x in b.objs.get(s, {}).items():
      out.objs.setdefault(s, {})[a] = x
      if a == '__schema_metadata__':
        if isinstance(x, ItemId):
          work.append((x, P_OBJECT))
      elif isinstance(x, ItemId) and x.is_schema:
        visit_schema(x)

  visit_schema(schema)
  for v in vals:
    work.append((v, schema))
  while work:
    v, s = work.pop()
    if v is None or v is REMOVED:
      continue
    if s is P_SCHEMA:
      visit_schema(v)
      continue
    if s is P_OBJECT:
      if isinstance(v, Prim) or (isinstance(v, ItemId) and v.is_schema):
        visit_schema(v)
        continue
      if not isinstance(v, ItemId):
        continue
      s = b.attr(v, '__schema__')
      if s in (None, REMOVED):
        continue
      out.objs.setdefault(v, {})['__schema__'] = s
      visit_schema(s)
    if not isinstance(s, ItemId) or (v, s) in seen:
      continue
    seen.add((v, s))
    if s.kind == 'SL':
      if v in b.lists:
        out.lists[v] = b.lists[v]
        it = b.attr(s, '__items__')
        work.extend((x, it) for x in b.lists[v])
    elif s.kind == 'SD':
      if v in b.dicts:
        out.dicts[v] = dict(b.dicts[v])
        ks, vs = b.attr(s, '__keys__'), b.attr(s, '__values__')
        for k, x in b.dicts[v].items():
          work.append((k, ks))
          work.append((x, vs))
    else:
      facts = b.objs.get(v)
      if facts:
        for a, t in b.objs.get(s, {}).items():
          if a in _META or t is REMOVED or a not in facts:
            continue
          out.objs.setdefault(v, {})[a] = facts[a]
          work.append((facts[a], t))
  return out


def _stub(vals, schema, b, out):
  """Schema identity for entities; contents for lists."""

  def stub_schema(s):
    if not isinstance(s, ItemId):
      return
    for a, x in b.objs.get(s, {}).items():
      if a in ('__items__', '__keys__', '__values__'):
        out.set(s, a, x)
        stub_schema(x)
      elif a == '__schema_name__':
        out.set(s, a, x)
      elif a == '__schema_metadata__' and isinstance(x, ItemId):
        out.set(s, a, x)
        out._overlay(_extract([x], P_OBJECT, b))

  if schema is P_SCHEMA:
    for v in vals:
      stub_schema(v)
    return
  if schema is P_OBJECT:
    for v in vals:
      if isinstance(v, ItemId):
        s = b.attr(v, '__schema__')
        if s is not None:
          out.set(v, '__schema__', s)
          stub_schema(s)
    return
  stub_schema(schema)
  if isinstance(schema, ItemId) and schema.kind == 'SL':
    it = b.attr(schema, '__items__')
    nested = []
    for v in vals:
      if v is not None and v in b.lists:
        out.lists[v] = b.lists[v]
        nested.extend(x for x in b.lists[v] if x is not None)
    if nested:
      _stub(nested, it, b, out)


# -- creation ---------------------------------------------------------------


def _infer(v):
  if v is None:
    return P_NONE
  if v is PRESENT:
    return P_MASK
  if isinstance(v, bool):
    return P_BOOLEAN
  if isinstance(v, int):
    return P_INT32 if -2**31 <= v < 2**31 else P_INT64
  if isinstance(v, float):
    return P_FLOAT32
  if isinstance(v, str):
    return P_STRING
  if isinstance(v, bytes):
    return P_BYTES
  if isinstance(v, _Expr):
    return P_EXPR
  raise ValueError(f'cannot convert {v!r} ({type(v)})')


_NUM = [P_INT32, P_INT64, P_FLOAT32, P_FLOAT64]


def _common_schema(a, b):
  if a is P_NONE:
    return b
  if b is P_NONE or a == b:
    return a
  if a in _NUM and b in _NUM:
    return _NUM[max(_NUM.index(a), _NUM.index(b))]
  if isinstance(a, Prim) and isinstance(b, Prim):
    return P_OBJECT
  raise ValueError(f'no common schema for {a} and {b}')


def _schema_val(schema):
  """The raw schema of a schema argument, and the bag it comes with."""
  if schema is None:
    return None, None
  if isinstance(schema, (Prim, ItemId)):
    return schema, None
  return schema._vals[0], schema._bag


def item(v, schema=None, mask=False):
  if mask:
    return _mk([PRESENT if v else None], (), P_MASK)
  if isinstance(v, DataSlice):
    s, b = _schema_val(schema)
    if v._dims:
      raise ValueError('expected an item')
    if s is not None and v._schema != s:
      return _mk(v._vals, (), _cast(v._schema, s), v._bag)
    return v
  s, b = _schema_val(schema)
  if isinstance(v, (list, dict)):
    r = list_(v, schema=schema) if isinstance(v, list) else dict_(v, schema=schema)
    return r
  if s is None:
    s = _infer(v)
  if s is P_MASK and v is not None and v is not PRESENT:
    v = PRESENT if v else None
  if s in (P_FLOAT32, P_FLOAT64) and isinstance(v, int):
    v = float(v)
  if v is not None and _struct(s):
    raise ValueError('cannot create an entity item from a primitive')
  return _mk([v], (), s, b)


def _cast(frm, to):
  if frm == to or frm is P_NONE or to is P_OBJECT:
    return to
  if frm in _NUM and to in _NUM and _NUM.index(frm) <= _NUM.index(to):
    return to
  if isinstance(to, ItemId) and isinstance(frm, ItemId):
    return to
  raise ValueError(f'cannot cast {frm} to {to}')


def as_slice(v):
  if isinstance(v, DataSlice):
    return v
  if isinstance(v, (list, tuple)):
    return slice_(v)
  return item(v)


def slice_(data, schema=None):
  """From nested Python lists (or items)."""
  if isinstance(data, DataSlice):
    return data
  s, sb = _schema_val(schema)
  if not isinstance(data, (list, tuple)):
    return item(data, schema)
  dims = []
  level = list(data)
  dims.append((len(level),))
  while level and all(isinstance(x, (list, tuple)) for x in level):
    dims.append(tuple(len(x) for x in level))
    level = [y for x in level for y in x]
  bag_ = None
  vals = []
  inner_dims = None
  common = None
  for x in level:
    x = as_slice(x)
    if inner_dims is None:
      inner_dims = [[] for _ in x._dims]
    if x._dims:
      for acc, d in zip(inner_dims, x._dims):
        acc.extend(d)
    vals.extend(x._vals)
    if s is None:
      common = x._schema if common is None else _common_schema(common, x._schema)
    else:
      _cast(x._schema, s)
    if x._bag is not None and x._bag is not bag_:
      bag_ = bags_enriched(bag_, x.extract()._bag)
  if inner_dims:
    dims.extend(tuple(d) for d in inner_dims)
  if s is None:
    s = common if common is not None else P_NONE
  if bag_ is None:
    bag_ = sb
  elif sb is not None:
    bag_ = bags_enriched(bag_, _extract([], s, sb))
  if s is P_MASK:
    vals = [PRESENT if v is not None else None for v in vals]
  if s in (P_FLOAT32, P_FLOAT64):
    vals = [float(v) if isinstance(v, int) else v for v in vals]
  return _mk(vals, tuple(dims), s, bag_)


def _list_schema_id(item_schema):
  return _uu('SL', 'list', repr(item_schema))


def _dict_schema_id(k, v):
  return _uu('SD', 'dict', repr(k), repr(v))


def list_schema(item_schema):
  s, b = _schema_val(item_schema)
  out = _extract([], s, b) if b is not None else DataBag()
  r = _list_schema_id(s)
  out.set(r, '__items__', s)
  return _mk([r], (), P_SCHEMA, out)


def dict_schema(key_schema, value_schema):
  k, kb = _schema_val(key_schema)
  v, vb = _schema_val(value_schema)
  out = DataBag()
  for s, b in ((k, kb), (v, vb)):
    if b is not None:
      out._overlay(_extract([], s, b))
  r = _dict_schema_id(k, v)
  out.set(r, '__keys__', k)
  out.set(r, '__values__', v)
  return _mk([r], (), P_SCHEMA, out)


def _set_schema_attrs(sid, attrs_, out):
  for a, s in attrs_.items():
    if not isinstance(s, DataSlice) or s._schema is not P_SCHEMA:
      raise ValueError(f'schema attribute {a} must be a SCHEMA, got {s}')
    sv, sb = _schema_val(s)
    if sb is not None:
      out._overlay(_extract([], sv, sb))
    out.set(sid, a, sv)


def named_schema(name, /, **attrs_):
  if isinstance(name, DataSlice):
    name = name._vals[0]
  sid = _uu('S', 'named', name)
  out = DataBag()
  _set_schema_attrs(sid, attrs_, out)
  out.set(sid, '__schema_name__', name)
  return _mk([sid], (), P_SCHEMA, out)


def new_schema(**attrs_):
  sid = _alloc('S')
  out = DataBag()
  _set_schema_attrs(sid, attrs_, out)
  return _mk([sid], (), P_SCHEMA, out)


def uu_schema(seed='', **attrs_):
  sid = _uu('S', 'uuschema', seed,
            sorted((a, repr(s._vals[0])) for a, s in attrs_.items()))
  out = DataBag()
  _set_schema_attrs(sid, attrs_, out)
  return _mk([sid], (), P_SCHEMA, out)


def _align(values):
  sl = {k: _attr_value(v) for k, v in values.items()}
  dims = _common_dims(*[v._dims for v in sl.values()]) if sl else ()
  return sl, dims


def _attr_value(v):
  if isinstance(v, list):
    return list_(v)
  if isinstance(v, dict):
    return dict_(v)
  return as_slice(v)


def new(*args, schema=None, overwrite_schema=False, itemid=None, **attrs_):
  if args:
    raise NotImplementedError('kd.new with positional arguments')
  vals, dims = _align(attrs_)
  if itemid is not None:
    dims = _common_dims(dims, itemid._dims)
    ids = _expand(itemid._vals, itemid._dims, dims)
  else:
    ids = [_alloc('e') for _ in range(_size(dims))]
  out = DataBag()
  if schema is None:
    sid = _alloc('S')
  else:
    if isinstance(schema, str):
      schema = named_schema(schema)
    sid, sb = _schema_val(schema)
    if not _struct(sid):
      raise ValueError(f'requires an entity schema, got {sid}')
    if _kind(sid, sb) == 'SL':
      return list_(schema=schema)
    if _kind(sid, sb) == 'SD':
      return dict_(schema=schema)
    # (A list schema whose bag does not know the item schema looks like an
    # entity schema.)
    if sb is not None:
      out._overlay(_extract([], sid, sb))
  ds = _mk(ids, dims, sid, out)
  return ds.updated(attrs(ds, overwrite_schema=overwrite_schema, **attrs_))


def obj(*args, **attrs_):
  if args:
    x = as_slice(args[0])
    return _mk(x._vals, x._dims, P_OBJECT, x._bag)
  e = new(**attrs_)
  b = e._bag
  for v in e._vals:
    b.set(v, '__schema__', e._schema)
  return _mk(e._vals, e._dims, P_OBJECT, b)


def uu(seed='', *, schema=None, overwrite_schema=False, **attrs_):
  vals, dims = _align(attrs_)
  cols = {k: _expand(v._vals, v._dims, dims) for k, v in vals.items()}
  ids = [
      _uu('e', 'uu', seed, sorted((k, repr(c[i])) for k, c in cols.items()))
      for i in range(_size(dims))]
  itemids = _mk(ids, dims, P_ITEMID)
  if schema is None:
    schema = uu_schema(**{k: v.get_schema() for k, v in vals.items()})
  return new(schema=schema, itemid=itemids, overwrite_schema=overwrite_schema,
             **attrs_)


def uuid(seed='', **kw):
  vals, dims = _align(kw)
  cols = {k: _expand(v._vals, v._dims, dims) for k, v in vals.items()}
  ids = [
      _uu('e', 'uuid', seed, sorted((k, repr(c[i])) for k, c in cols.items()))
      for i in range(_size(dims))]
  return _mk(ids, dims, P_ITEMID)


def new_itemid():
  return _mk([_alloc('e')], (), P_ITEMID)


def list_(items=None, *, item_schema=None, schema=None, itemid=None):
  if schema is not None and item_schema is None:
    sid, sb = _schema_val(schema)
    if sb is None:
      raise ValueError('list schema without a bag')
    item_schema = _mk([sid], (), P_SCHEMA, sb).get_attr('__items__')
  else:
    sid = None
  if items is None:
    items = []
  if isinstance(items, (list, tuple)):
    it, ib = _schema_val(item_schema)
    conv = []
    for x in items:
      if isinstance(x, (list, tuple)):
        inner = None
        if it is not None and _struct(it):
          inner = item_schema.get_attr('__items__')
        x = list_(x, item_schema=inner)
      elif isinstance(x, dict):
        x = dict_(x, schema=item_schema)
      conv.append(x)
    ds = slice_(conv, schema=item_schema)
    if not conv and item_schema is None:
      ds = _mk([], ((0,),), P_OBJECT, None)
  else:
    ds = items
    if not ds._dims:
      raise ValueError('creating a list from an item is not supported')
    if item_schema is not None:
      it, ib = _schema_val(item_schema)
      ds = _mk(ds._vals, ds._dims, _cast(ds._schema, it),
               bags_enriched(ds._bag, ib) if ib is not None else ds._bag)
  r = ds._implode(itemid)
  if sid is not None and sid != r._schema:
    b = r._bag
    b._overlay(_extract([], sid, sb))
    return _mk(r._vals, r._dims, sid, b)
  return r


def dict_(items_or_keys=None, values=None, *, key_schema=None,
          value_schema=None, schema=None, itemid=None):
  sid = None
  if schema is not None:
    sid, sb = _schema_val(schema)
    s = _mk([sid], (), P_SCHEMA, sb)
    key_schema, value_schema = s.get_attr('__keys__'), s.get_attr('__values__')
  if isinstance(items_or_keys, dict) or items_or_keys is None:
    d = items_or_keys or {}
    keys = slice_([k for k in d], schema=key_schema)
    vs = []
    for v in d.values():
      vs.append(_attr_value(v) if not isinstance(v, list) or value_schema is None
                else list_(v, schema=value_schema))
    vals = slice_(vs, schema=value_schema)
    if not d:
      ks = key_schema if key_schema is not None else OBJECT
      vvs = value_schema if value_schema is not None else OBJECT
      keys = slice_([], schema=ks)
      vals = slice_([], schema=vvs)
  else:
    keys, vals = as_slice(items_or_keys), as_slice(values)
    if not keys._dims:
      keys = keys.flatten()
    if not vals._dims:
      vals = vals.flatten() if keys._dims == ((1,),) else vals
  dims = _common_dims(keys._dims, vals._dims)
  kv = _expand(keys._vals, keys._dims, dims)
  vv = _expand(vals._vals, vals._dims, dims)
  sizes, outer = dims[-1], dims[:-1]
  if itemid is None:
    ids = [_alloc('d') for _ in sizes]
  else:
    ids = _expand(itemid._vals, itemid._dims, outer)
  b = keys._adoptable()
  b._overlay(vals._adoptable())
  if sid is None:
    sid = _dict_schema_id(keys._schema, vals._schema)
  else:
    b._overlay(_extract([], sid, sb))
  b.set(sid, '__keys__', keys._schema)
  b.set(sid, '__values__', vals._schema)
  i = 0
  for d, n in zip(ids, sizes):
    if d is not None:
      dd = b.dicts.setdefault(d, {})
      for k, v in zip(kv[i:i + n], vv[i:i + n]):
        if k is not None:
          dd[k] = REMOVED if v is None else v
    i += n
  return _mk(ids, outer, sid, b)


def attrs(x, /, *, overwrite_schema=False, **kw):
  """A bag with attribute updates for x."""
  out = DataBag()
  for a, v in kw.items():
    v = _attr_value(v)
    out._overlay(v._adoptable())
    vals = _expand(v._vals, v._dims, _common_dims(x._dims, v._dims))
    if v._dims != x._dims and len(v._dims) > len(x._dims):
      raise ValueError('the attribute value has more dimensions than the slice')
    if x._schema is P_SCHEMA:
      for s, t in zip(x._vals, vals):
        if s is None:
          continue
        if not isinstance(s, ItemId):
          raise ValueError('cannot set attributes of a primitive schema')
        if a not in _META and v._schema is not P_SCHEMA:
          raise ValueError(
              f"only schemas can be assigned as attributes of schemas, got: {v}")
        out.set(s, a, t)
      continue
    if not (_struct(x._schema) and x._schema.kind == 'S') and (
        x._schema is not P_OBJECT):
      raise ValueError(f'cannot set attributes on schema {x._schema}')
    schema = v._schema
    old = x._attr_schema(a)
    if old is not None and old != schema and not overwrite_schema:
      try:
        schema = _cast(schema, old) if not isinstance(old, ItemId) or schema is P_NONE else None
      except ValueError:
        schema = None
      if schema is None:
        raise ValueError(
            f"kd.core.attrs: the schema for attribute '{a}' is incompatible.\n"
            f'Expected schema for {a!r}: {old}\nAssigned schema: {v._schema}')
    if x._schema is P_OBJECT:
      for o in x._vals:
        if o is not None:
          out.set(x._bag.attr(o, '__schema__'), a, schema)
    else:
      out.set(x._schema, a, schema)
    for o, t in zip(x._vals, vals):
      if o is not None:
        out.set(o, a, t)
  return out


def dict_update(x, keys, values=None):
  if values is None:
    d = keys if isinstance(keys, DataSlice) else dict_(keys)
    keys, values = d.get_keys(), d.get_values()
  keys, values = as_slice(keys), as_slice(values)
  out = keys._adoptable()
  out._overlay(values._adoptable())
  dims = _common_dims(x._dims, keys._dims, values._dims)
  for d, k, v in zip(_expand(x._vals, x._dims, dims),
                     _expand(keys._vals, keys._dims, dims),
                     _expand(values._vals, values._dims, dims)):
    if d is not None and k is not None:
      out.dicts.setdefault(d, {})[k] = REMOVED if v is None else v
  if x._attr_schema('__keys__') is not None:
    out.set(x._schema, '__keys__', x._attr_schema('__keys__'))
  if x._attr_schema('__values__') is not None:
    out.set(x._schema, '__values__', x._attr_schema('__values__'))
  return out


def list_append_update(x, append):
  append = as_slice(append)
  out = append._adoptable()
  if len(append._dims) <= len(x._dims):
    per = [(v,) for v in _expand(append._vals, append._dims, x._dims)]
  else:
    if append._dims[:-1] != x._dims:
      raise ValueError('incompatible shape')
    per, i = [], 0
    for n in append._dims[-1]:
      per.append(tuple(append._vals[i:i + n]))
      i += n
  for l, vs in zip(x._vals, per):
    if l is not None:
      out.lists[l] = x._bag.lists.get(l, ()) + vs
  if x._attr_schema('__items__') is not None:
    out.set(x._schema, '__items__', x._attr_schema('__items__'))
  return out


# -- operators --------------------------------------------------------------


def has(x):
  return _mk([None if v is None else PRESENT for v in x._vals], x._dims, P_MASK)


def has_not(x):
  return ~has(x)


def dir_(x):
  """Attribute names."""
  b = x._bag
  if x._schema is P_SCHEMA:
    names = None
    for v in x._vals:
      if not isinstance(v, ItemId):
        if isinstance(v, Prim) or v is not None:
          raise ValueError('primitive schemas have no attributes')
        continue
      if b is None:
        raise ValueError('cannot get attribute names without a DataBag')
      s = {a for a, t in b.objs.get(v, {}).items()
           if a not in _META and t is not REMOVED}
      names = s if names is None else names & s
    return sorted(names or ())
  if b is None:
    raise ValueError('cannot get available attributes without a DataBag')
  if x._schema is P_OBJECT:
    names = None
    for v in x._vals:
      if v is None:
        continue
      s = {a for a, t in b.objs.get(b.attr(v, '__schema__'), {}).items()
           if a not in _META and t is not REMOVED}
      names = s if names is None else names & s
    return sorted(names or ())
  return sorted(a for a, t in b.objs.get(x._schema, {}).items()
                if a not in _META and t is not REMOVED)


def has_attr(x, name):
  if x._schema is P_SCHEMA:
    return _mk([
        PRESENT if isinstance(v, ItemId) and x._bag is not None
        and x._bag.attr(v, name) not in (None, REMOVED) else None
        for v in x._vals], x._dims, P_MASK)
  if not (_struct(x._schema) or x._schema is P_OBJECT):
    return _mk([None] * len(x._vals), x._dims, P_MASK)
  return has(maybe(x, name))


def maybe(x, name):
  return x.get_attr(name, _mk([None], (), P_NONE))


def unique(x):
  if len(x._dims) != 1:
    raise NotImplementedError('unique of a slice that is not flat')
  seen = {}
  for v in x._vals:
    if v is not None:
      seen.setdefault((type(v).__name__, v), v)
  vals = list(seen.values())
  return _mk(vals, ((len(vals),),), x._schema, x._bag)


def any_(x):
  return item(any(v is not None for v in x._vals), mask=True)


def all_(x):
  return item(all(v is not None for v in x._vals), mask=True)


def _agg(x, fn):
  if not x._dims:
    raise ValueError('expected rank > 0')
  out, i = [], 0
  for n in x._dims[-1]:
    out.append(PRESENT if fn(v is not None for v in x._vals[i:i + n]) else None)
    i += n
  return _mk(out, x._dims[:-1], P_MASK)


def agg_any(x):
  return _agg(x, any)


def agg_all(x):
  return _agg(x, all)


def expand_to_shape(x, shape):
  if x.is_empty():
    return _mk([None] * _size(shape.dims), shape.dims, x._schema, x._bag)
  return _mk(_expand(x._vals, x._dims, shape.dims), shape.dims, x._schema,
             x._bag)


def is_item(x):
  return isinstance(x, DataSlice) and not x._dims


def is_itemid(x):
  return item(isinstance(x, DataSlice) and x._schema is P_ITEMID, mask=True)


def encode_itemid(x):
  return _mk([None if v is None else _encode(v) for v in x._vals], x._dims,
             P_STRING)


def hash_itemid(x):
  def h(v):
    return int.from_bytes(hashlib.blake2b(
        repr((v.kind, v.uid)).encode(), digest_size=7).digest(), 'big')
  return _mk([None if v is None else h(v) for v in x._vals], x._dims, P_INT64)


def list_size(x):
  return _mk([None if v is None else len(x._bag.lists.get(v, ()))
              for v in x._vals], x._dims, P_INT64)


def get_metadata(x):
  return x.get_attr('__schema_metadata__')


def metadata(x, /, **attrs_):
  """Bag with metadata attributes for schemas."""
  out = DataBag()
  for s in x._vals:
    m = _uu('e', 'metadata', repr(s))
    ms = _uu('S', 'metadata_schema', repr(s))
    out.set(s, '__schema_metadata__', m)
    out.set(m, '__schema__', ms)
    for a, v in attrs_.items():
      v = _attr_value(v)
      out._overlay(v._adoptable())
      out.set(ms, a, v._schema)
      out.set(m, a, v._vals[0])
  return out


def with_metadata(x, **attrs_):
  return x.updated(metadata(x, **attrs_))


def val_like(x, v):
  v = as_slice(v)
  return _mk([None if y is None else v._vals[0] for y in x._vals], x._dims,
             v._schema)


def translate_group(keys_to, keys_from, values_from):
  """Groups values_from by keys_from and aligns the groups with keys_to."""
  groups = {}
  for k, v in zip(keys_from._vals, values_from._vals):
    groups.setdefault(k, []).append(v)
  vals, sizes = [], []
  for k in keys_to._vals:
    g = groups.get(k, [])
    vals.extend(g)
    sizes.append(len(g))
  return _mk(vals, keys_to._dims + (tuple(sizes),), values_from._schema,
             values_from._bag)


class _Expr:

  def __add__(self, o):
    return _Expr(f'({self.name}+{o.name})')

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, _Expr) and o.name == self.name

  def __hash__(self):
    return hash(self.name)


class _Inputs:

  def __getattr__(self, name):
    return _Expr(name)


def pack_expr(e):
  return _mk([e], (), P_EXPR)


def stub(x):
  return x.stub()


def to_pytree(x, max_depth=2):
  return x.to_pytree(max_depth=max_depth)


def to_py(x, max_depth=2):
  return x.to_py(max_depth=max_depth)


# -- testing ----------------------------------------------------------------


def _canon(x):
  if isinstance(x, DataBag):
    return ('bag', x.contents())
  b = None
  if x._bag is not None:
    b = _extract(x._vals, x._schema, x._bag).contents()
  return ('slice', x._vals, x._dims, x._schema, b)


def assert_equivalent(a, b, **kw):
  if isinstance(a, DataBag) or isinstance(b, DataBag):
    if _canon(a) != _canon(b):
      raise AssertionError(f'not equivalent:\n{a}\n{b}')
    return
  assert_deep(a, b, **kw)


def assert_deep(a, b, **kw):
  """Deep equivalence of slices, ignoring item ids."""
  del kw
  ka, kb = _deep(a), _deep(b)
  if ka != kb:
    raise AssertionError(f'not equivalent:\n{ka}\n{kb}')


def _deep(x):
  b = x._bag if x._bag is not None else DataBag()
  memo = {}

  def schema(s, path=()):
    if not isinstance(s, ItemId):
      return repr(s)
    if s in path:
      return ('cycle', len(path) - path.index(s))
    path = path + (s,)
    return (s.kind,) + tuple(
        (a, schema(t, path) if a not in _META else
         (t if a == '__schema_name__' else repr(sorted(
             b.objs.get(t, {}).items(), key=repr))))
        for a, t in sorted(b.objs.get(s, {}).items()) if t is not REMOVED)

  def val(v, s, path=()):
    if v is None or v is REMOVED:
      return None
    if s is P_OBJECT and isinstance(v, ItemId) and not v.is_schema:
      s = b.attr(v, '__schema__')
    if s is P_SCHEMA or isinstance(v, Prim):
      return schema(v)
    if not isinstance(v, ItemId) or not isinstance(s, ItemId):
      return v
    if (v, s) in path:
      return ('cycle', len(path) - path.index((v, s)))
    path = path + ((v, s),)
    if s.kind == 'SL':
      return ['list'] + [val(y, b.attr(s, '__items__'), path)
                         for y in b.lists.get(v, ())]
    if s.kind == 'SD':
      return ('dict', sorted(
          ((val(k, b.attr(s, '__keys__'), path),
            val(y, b.attr(s, '__values__'), path))
           for k, y in b.dicts.get(v, {}).items() if y is not REMOVED),
          key=repr))
    return tuple(
        (a, val(b.attr(v, a), t, path))
        for a, t in sorted(b.objs.get(s, {}).items())
        if a not in _META and t is not REMOVED)

  del memo
  return (x._dims, schema(x._schema), [val(v, x._schema) for v in x._vals])


def assert_equal(a, b, *args, **kw):
  if isinstance(a, DataBag) or isinstance(b, DataBag):
    if _canon(a) != _canon(b):
      raise AssertionError(f'not equal:\n{a}\n{b}')
    return
  if (a._vals, a._dims, a._schema) != (b._vals, b._dims, b._schema):
    raise AssertionError(f'not equal:\n{a!r}\n{b!r}')
  if (a._bag is None) != (b._bag is None):
    raise AssertionError(f'bag presence differs:\n{a!r}\n{b!r}')


# -- serialization ----------------------------------------------------------


_MAGIC = b'miniriegeli1'


def riegeli_dumps(x, riegeli_options=None):
  del riegeli_options
  body = pickle.dumps(_reduce(x), protocol=5)
  return (_MAGIC + len(body).to_bytes(8, 'big')
          + zlib.crc32(body).to_bytes(4, 'big') + body)


def riegeli_loads(data):
  if len(data) < 24 or data[:12] != _MAGIC:
    raise ValueError('not a riegeli file')
  n = int.from_bytes(data[12:20], 'big')
  body = data[24:]
  if len(body) != n or zlib.crc32(body) != int.from_bytes(data[20:24], 'big'):
    raise ValueError('corrupted riegeli file')
  return _restore(pickle.loads(body))


def _reduce(x):
  if isinstance(x, DataBag):
    return ('bag', x.objs, x.lists, x.dicts, x.mutable)
  return ('slice', x._vals, x._dims, x._schema,
          None if x._bag is None else _reduce(x._bag))


def _restore(t):
  if t[0] == 'bag':
    b = DataBag()
    b.objs, b.lists, b.dicts, b.mutable = t[1:]
    return b
  return _mk(t[1], t[2], t[3], None if t[4] is None else _restore(t[4]))


INT32 = _mk([P_INT32], (), P_SCHEMA)
INT64 = _mk([P_INT64], (), P_SCHEMA)
FLOAT32 = _mk([P_FLOAT32], (), P_SCHEMA)
FLOAT64 = _mk([P_FLOAT64], (), P_SCHEMA)
STRING = _mk([P_STRING], (), P_SCHEMA)
BYTES = _mk([P_BYTES], (), P_SCHEMA)
BOOLEAN = _mk([P_BOOLEAN], (), P_SCHEMA)
MASK = _mk([P_MASK], (), P_SCHEMA)
EXPR = _mk([P_EXPR], (), P_SCHEMA)
ITEMID = _mk([P_ITEMID], (), P_SCHEMA)
SCHEMA = _mk([P_SCHEMA], (), P_SCHEMA)
OBJECT = _mk([P_OBJECT], (), P_SCHEMA)
NONE = _mk([P_NONE], (), P_SCHEMA)


def _vec(fn, schema):
  def op(x, *a):
    x = as_slice(x)
    return _mk([None if v is None else fn(v, *a) for v in x._vals], x._dims,
               schema)
  return op


def install():
  """Makes `from koladata import kd` give this module's operators."""
  import base64
  import koladata

  def module(name, **kw):
    m = pytypes.ModuleType(name)
    m.__dict__.update(kw)
    return m

  arolla = module('arolla.arolla', AnyQValue=object, s11n=module(
      'arolla.s11n', riegeli_dumps=riegeli_dumps, riegeli_loads=riegeli_loads))
  stubs = {
      'arolla': module('arolla', arolla=arolla),
      'arolla.arolla': arolla,
      'koladata.types.data_bag': module(
          'koladata.types.data_bag', DataBag=DataBag),
      'koladata.types.data_slice': module(
          'koladata.types.data_slice', DataSlice=DataSlice),
      'koladata.types.jagged_shape': module(
          'koladata.types.jagged_shape', JaggedShape=JaggedShape),
      'koladata.types.extension_type_registry': module(
          'koladata.types.extension_type_registry',
          is_koda_extension=lambda x: False),
  }
  import re
  stubs['re2'] = re  # used for one path filter in the view
  sys.modules.update(stubs)
  import koladata.types as ktypes
  for n in ('data_bag', 'data_slice', 'jagged_shape',
            'extension_type_registry'):
    setattr(ktypes, n, stubs['koladata.types.' + n])
  from koladata.file_io import file_io
  from koladata.functions import s11n  # the real file reading/writing code

  def b64decode(v):
    try:
      return base64.b64decode(v, validate=True)
    except Exception as e:
      raise ValueError(f'invalid base64 string: {v}') from e

  def decode(v):
    try:
      return v.decode()
    except UnicodeDecodeError as e:
      raise ValueError(f'invalid UTF-8: {v}') from e

  strings = module(
      'strings', encode=_vec(lambda v: v.encode(), P_BYTES),
      decode=_vec(decode, P_STRING),
      encode_base64=_vec(lambda v: base64.b64encode(v).decode(), P_STRING),
      decode_base64=_vec(b64decode, P_BYTES),
      contains=lambda x, s: _mk(
          [PRESENT if v is not None and s in v else None for v in x._vals],
          x._dims, P_MASK))
  kd = module(
      'koladata.kd', INT32=INT32, INT64=INT64, FLOAT32=FLOAT32,
      FLOAT64=FLOAT64, STRING=STRING, BYTES=BYTES, BOOLEAN=BOOLEAN, MASK=MASK,
      EXPR=EXPR, ITEMID=ITEMID, SCHEMA=SCHEMA, OBJECT=OBJECT, NONE=NONE,
      types=module(
          'types', DataSlice=DataSlice, DataItem=DataItem, DataBag=DataBag,
          SchemaItem=SchemaItem, DictItem=DictItem, ListItem=ListItem,
          JaggedShape=JaggedShape),
      file_io=module(
          'file_io',
          get_default_file_system_interaction=(
              file_io.get_default_file_system_interaction),
          FileSystemInterface=file_io.fs_interface.FileSystemInterface,
          FileSystemInteraction=file_io.fs_implementation.FileSystemInteraction),
      s11n=s11n, strings=strings,
      bags=module('bags', updated=bags_updated, enriched=bags_enriched,
                  new=bag),
      slices=module('slices', internal_is_compliant_attr_name=_compliant,
                    get_repr=repr),
      schema=module(
          'schema', is_entity_schema=lambda s: s.is_entity_schema(),
          new_schema=new_schema, named_schema=named_schema,
          list_schema=list_schema, dict_schema=dict_schema,
          to_bool=_vec(bool, P_BOOLEAN), uu_schema=uu_schema),
      lists=module('lists', size=list_size,
                   list_append_update=list_append_update),
      dicts=module('dicts', dict_update=dict_update),
      core=module('core', get_metadata=get_metadata, attrs=attrs),
      ids=module('ids', encode_itemid=encode_itemid),
      expr=module('expr', pack_expr=pack_expr), I=_Inputs(),
      testing=module('testing', assert_equivalent=assert_equivalent,
                     assert_equal=assert_equal),
      has=has, has_not=has_not, new=new, obj=obj, uu=uu, uuid=uuid,
      present=_mk([PRESENT], (), P_MASK), missing=_mk([None], (), P_MASK),
      attrs=attrs, named_schema=named_schema, list_schema=list_schema,
      dict_schema=dict_schema, uu_schema=uu_schema, dir=dir_, unique=unique,
      dict=dict_, list=list_, item=item, slice=slice_, agg_any=agg_any,
      agg_all=agg_all, any=any_, all=all_, mutable_bag=mutable_bag, bag=bag,
      list_append_update=list_append_update, dict_update=dict_update,
      is_item=is_item, is_itemid=is_itemid, encode_itemid=encode_itemid,
      hash_itemid=hash_itemid, new_itemid=new_itemid, maybe=maybe,
      has_attr=has_attr, expand_to_shape=expand_to_shape,
      get_metadata=get_metadata, with_metadata=with_metadata,
      metadata=metadata, val_like=val_like, translate_group=translate_group,
      stub=stub, to_pytree=to_pytree, to_py=to_py,
      int32=lambda v: item(v, schema=P_INT32),
      int64=lambda v: item(v, schema=P_INT64),
      float32=lambda v: item(float(v), schema=P_FLOAT32),
      float64=lambda v: item(float(v), schema=P_FLOAT64),
      bytes=lambda v: item(v, schema=P_BYTES),
      str=lambda v: item(v, schema=P_STRING))
  sys.modules['koladata.kd'] = kd
  koladata.kd = kd
  return kd


_RESERVED = frozenset(n for n in dir(DataItem) if not n.startswith('_'))


def _compliant(name):
  return item(name.isidentifier() and not name.startswith('_')
              and name not in _RESERVED, mask=True)
