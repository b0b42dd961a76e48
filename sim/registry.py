"""Which scenarios decide which property, and how deep each tier goes."""


def T(runs, wall, **kw):
  return dict(runs=runs, wall=wall, **kw)


PROPERTIES = {
    'L01': {
        'scenarios': [
            {'spec': 'scenarios.lru:Lru', 'quick': T(12000, 90),
             'thorough': T(400000, 1500)},
        ],
        'real': ['py/koladata/ext/storage/lru_size_tracking_cache.py'],
        'stub': ['threading primitives (scheduler-owned)'],
    },
    'Q01': {
        'scenarios': [
            {'spec': 'scenarios.tqdm_sim:TqdmContext', 'quick': T(2500, 60),
             'thorough': T(100000, 1500)},
        ],
        'real': ['py/koladata/ext/tqdm/*.py', 'tqdm.std (installed package)',
                 'contextvars, asyncio (standard library)'],
        'stub': ['threading primitives and time (scheduler-owned)',
                 'terminal (null stream)'],
    },
    'Q02': {
        'scenarios': [
            {'spec': 'scenarios.tqdm_sim:TqdmReport', 'quick': T(3000, 60),
             'thorough': T(100000, 1500)},
        ],
        'real': ['py/koladata/ext/tqdm/*.py', 'tqdm.std (installed package)'],
        'stub': ['threading primitives and time (scheduler-owned)',
                 'terminal (null stream)'],
    },
    'X01': {
        'scenarios': [
            {'spec': 'scenarios.tracing:Tracing', 'quick': T(3000, 60),
             'thorough': T(100000, 1500)},
        ],
        'real': ['py/koladata/expr/tracing_mode.py'],
        'stub': ['threads (scheduler-owned)'],
    },
    'X02': {
        'scenarios': [
            {'spec': 'scenarios.typecheck:TypeChecks', 'quick': T(3000, 60),
             'thorough': T(100000, 1500)},
        ],
        'real': ['py/koladata/type_checking/type_checking.py',
                 'py/koladata/expr/tracing_mode.py'],
        'stub': ['threads (scheduler-owned)',
                 'DataSlices (sim/minikd.py) and lazy expressions'],
    },
    'M01': {
        'scenarios': [
            {'spec': 'scenarios.mappy:MapPy', 'quick': T(4000, 60),
             'thorough': T(200000, 1500)},
        ],
        'real': ['py/koladata/operators/py.py',
                 'concurrent.futures (standard library)'],
        'stub': ['threading primitives and time (scheduler-owned)',
                 'DataSlice and vectorised operators (sim/minikd.py)',
                 'arolla cancellation contexts, operator registration'],
    },
    'L02': {
        'scenarios': [
            {'spec': 'scenarios.caching:CachedFunctions',
             'quick': T(6000, 60), 'thorough': T(200000, 1500)},
        ],
        'real': ['py/koladata/caching/lru_cache.py',
                 'py/koladata/expr/tracing_mode.py'],
        'stub': ['threads (scheduler-owned)',
                 'the C++ cache (a model that evicts), DataSlice and operators '
                 '(sim/minikd.py)'],
    },
    'F01': {
        'scenarios': [
            {'spec': 'scenarios.fs_sim:FsSim', 'quick': T(4000, 60),
             'thorough': T(200000, 1500)},
        ],
        'real': ['py/koladata/file_io/*.py'],
        'stub': ['file system: sim/simfs.py (crash, errors, short writes)',
                 'threads (scheduler-owned)'],
    },
    'F02': {
        'scenarios': [
            {'spec': 'scenarios.dumps:Dumps', 'quick': T(6000, 60),
             'thorough': T(300000, 1500)},
        ],
        'real': ['py/koladata/functions/s11n.py'],
        'stub': ['file system: sim/simfs.py', 'threads and clock: simulator',
                 'DataSlice, DataBag and the serialiser (sim/minikd.py)'],
    },
}

_STORAGE_REAL = [
    'py/koladata/ext/storage/*.py', 'py/koladata/functions/s11n.py',
    'py/koladata/file_io/*.py', 'generated protobuf modules',
    'concurrent.futures (standard library)']
_STORAGE_STUB = [
    'koladata.kd and arolla C++ extensions: sim/minikd.py (validated against '
    'the repository\'s storage tests)',
    'file system: sim/simfs.py', 'threads, clock, uuid: simulator']

for _id, _sc, _q, _t in [
    ('B01', 'BagCrash', 2500, 60000), ('B02', 'BagFaults', 2500, 60000),
    ('B03', 'BagWriters', 2500, 60000), ('B04', 'BagReads', 1500, 40000),
    ('B05', 'BagBranches', 1500, 40000)]:
  PROPERTIES[_id] = {
      'scenarios': [{'spec': f'scenarios.bagman:{_sc}', 'quick': T(_q, 60),
                     'thorough': T(_t, 1500)}],
      'real': _STORAGE_REAL, 'stub': _STORAGE_STUB}

for _id, _sc, _q, _t in [
    ('D01', 'Crash', 1500, 30000), ('D02', 'Faults', 1500, 30000),
    ('D03', 'Writers', 1200, 30000), ('D04', 'History', 800, 20000),
    ('D05', 'Branches', 1000, 20000), ('D06', 'Partial', 1500, 30000),
    ('D07', 'Pinned', 800, 20000), ('D08', 'Views', 1000, 20000)]:
  _mod = 'views' if _id == 'D08' else 'slices'
  PROPERTIES[_id] = {
      'scenarios': [{'spec': f'scenarios.{_mod}:{_sc}', 'quick': T(_q, 90),
                     'thorough': T(_t, 1500)}],
      'real': _STORAGE_REAL, 'stub': _STORAGE_STUB}

_CC_REAL = [
    'koladata/functor/parallel/*.{h,cc} (executors, futures, streams, stream '
    'operators, async_eval) and the JSON stream operators, compiled from the '
    'tree and instrumented']
_CC_STUB = [
    'absl::Mutex/CondVar/Notification, thread pool, threads: the simulator '
    '(every lock, atomic and memory access is a scheduling point)',
    'absl containers, strings and status: small stand-ins in cc/shim',
    'arolla QTypes, TypedValue, cancellation contexts; DataSlice and its '
    'concatenation; expression compilation: stand-ins in cc/shim and cc/rt']
_CC_ASSUME = [
    'sequentially consistent interleavings plus happens-before race '
    'detection; weaker-memory reorderings of correctly synchronised atomics '
    'are not simulated']

for _id, _scs in [
    ('P01', [('stream', 60000, 35), ('stream_callbacks', 30000, 15)]),
    ('P02', [('future', 60000, 40)]),
    ('P03', [('map', 90000, 50)]),
    ('P04', [('chain', 40000, 30), ('interleave', 40000, 30)]),
    ('P05', [('loops', 45000, 40), ('reduce', 40000, 30)]),
    ('P06', [('call', 50000, 30), ('eval', 50000, 30)]),
    ('P07', [('cancel', 90000, 30), ('endless', 40000, 15),
             ('eval_discard', 40000, 15), ('stuck_call', 40000, 15)]),
    ('P08', [('executors', 120000, 40)]),
    ('P09', [('json', 120000, 50)]),
    ('P10', [('json_ops', 120000, 50)]),
    ('P11', [('json_salvage', 120000, 50)]),
    ('P12', [('ids', 30000, 40), ('idsets', 60000, 15)]),
    ('P13', [('bags', 40000, 60)]),
    ('P14', [('pystream', 15000, 60)]),
    ('P15', [('pylru', 40000, 40), ('pyeval', 40000, 40),
             ('pybridge', 30000, 40)]),
    ('P16', [('pyprint', 40000, 40)]),
    ('P17', [('trampoline', 60000, 40)]),
    ('P18', [('operators', 60000, 40)]),
    ]:
  PROPERTIES[_id] = {
      'scenarios': [{'spec': f'cc:{_n}', 'quick': T(_q, _w),
                     'thorough': T(20000000, 1500 / len(_scs))}
                    for _n, _q, _w in _scs],
      'real': _CC_REAL, 'stub': _CC_STUB, 'assumptions': _CC_ASSUME}

PROPERTIES['P13']['real'] = [
    'koladata/data_bag.{h,cc}, compiled from the tree and instrumented']
PROPERTIES['P13']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point; thread-local storage is real)',
    'the store inside a bag (DataBagImpl): a small map with the same contract, '
    'in which forks refer to their parents and a frozen store refuses writes',
    'arolla reference counting, fingerprints and QTypes: stand-ins in cc/shim']
PROPERTIES['P14']['real'] = [
    'py/koladata/functor/parallel/py_stream.cc and py_executor.cc, '
    'py/koladata/base/py_args.cc, koladata/functor/parallel/stream.cc and the '
    'executors, compiled from the tree and instrumented']
PROPERTIES['P14']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point; thread-local storage is real)', 'the clock (simulated)',
    'CPython: objects, reference counts, exceptions and the GIL are a small '
    'stand-in that checks their rules',
    'arolla QValues, events and cancellation: stand-ins in cc/shim']
PROPERTIES['P15']['real'] = [
    'py/koladata/caching/clib.cc, koladata/expr/expr_eval.cc, '
    'py/koladata/expr/py_expr_eval.cc, koladata/serving/slice_registry.cc, '
    'py/koladata/base/py_args.cc, koladata/internal/non_deterministic_token.cc, '
    'koladata/operators/arolla_bridge.cc, koladata/iterables/iterable_qtype.cc, '
    'koladata/functor/parallel/transform_config_registry.cc, '
    'create_transform_config.cc and transform_config.cc, '
    'compiled from the tree and instrumented']
PROPERTIES['P15']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point; thread-local storage is real)',
    'CPython and pybind11: objects, exceptions and the GIL are a small '
    'stand-in that checks their rules',
    'arolla: the LRU cache (same contract, a small capacity), expressions, '
    'their compiler (one that checks the types of its inputs), statuses with '
    'causes, cancellation, dense arrays, operator registry: stand-ins',
    'protobuf: a stand-in for the one message that is used, and its text form',
    'DataSlice, extraction and schemas: a small model in cc/shim15']
PROPERTIES['P16']['real'] = [
    'koladata/operators/print.cc, koladata/internal/op_utils/print.cc and '
    'py/koladata/base/init.cc, compiled from the tree and instrumented']
PROPERTIES['P16']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point; thread-local storage is real)',
    'CPython: objects, exceptions, memory, sys.stdout and the GIL are a small '
    'stand-in that checks their rules',
    'arolla frames and the text form of a slice: stand-ins in cc/shim15']
PROPERTIES['P17']['real'] = [
    'koladata/internal/op_utils/trampoline_executor.{h,cc}, compiled from the '
    'tree and instrumented']
PROPERTIES['P17']['stub'] = [
    'threads (scheduler-owned; every memory access is a scheduling point)',
    'the callbacks: random programs in place of the conversions from and to '
    'protos, JSON and Python']
PROPERTIES['P18']['real'] = [
    'koladata/functor/parallel/{future_operators,stream_operators,'
    'async_eval_operator}.cc, the streams, futures, loops and executors they '
    'use and koladata/iterables/iterable_qtype.cc, compiled from the tree and '
    'instrumented']
PROPERTIES['P18']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point)', 'the clock (simulated)',
    'arolla: frames and slots (raw memory with the layout of a tuple), bound '
    'operators, sequences, cancellation, events, QTypes: stand-ins in cc/shim',
    'functors: functions of the scenario; slices: a small model']
PROPERTIES['P12']['real'] = [
    'koladata/internal/object_id.{h,cc}, pseudo_random.{h,cc} and '
    'op_utils/base62.cc, compiled from the tree and instrumented']
PROPERTIES['P12']['stub'] = [
    'threads (scheduler-owned; every atomic and memory access is a scheduling '
    'point; thread-local storage is real)',
    'the random source and its reseeding (the interface\'s own override '
    'symbols)', 'arolla fingerprints and QTypes: stand-ins in cc/shim']
