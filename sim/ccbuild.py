"""Builds the C++ simulator: /repo's parallel code, instrumented, against the
stand-ins in cc/shim and the deterministic runtime in cc/rt."""

import concurrent.futures
import glob
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC = os.path.join(HERE, 'cc')

PARALLEL = '''asio_executor async_eval basic_routine default_asio_executor
derived_executor eager_executor executor future future_qtype
get_default_executor make_executor stream stream_call stream_composition
stream_filter_json stream_for stream_loop_internal stream_map stream_qtype
stream_reduce stream_reduce_stack_or_concat stream_while'''.split()
# Built only for the scenario that runs them.
OPERATORS = 'async_eval_operator future_operators stream_operators'.split()

COMMON = ['-std=c++20', '-fno-gnu-unique', '-g1', '-fno-pie', '-w', '-I', CC + '/rt', '-I',
          CC + '/model', '-I',
          CC + '/shim']
INSTR = ['-O1', '-fsanitize=thread', '--param',
         'tsan-instrument-func-entry-exit=0']


class BuildError(Exception):
  pass


# Sequential code that runs under the simulator without scheduling points.
PLAIN = ['internal/op_utils/json_stream.cc']
INCLUDE = re.compile(r'^\s*#\s*include\s+"((?:py/)?koladata/[^"]+)\.h"', re.M)


def repo_sources(repo, operators=False):
  """The repository's sources to build: (instrumented, plain).

  Besides the known files, those of every header of /repo that they include and
  that has no stand-in (a change may have added some).
  """
  d = repo + '/koladata/'
  todo = [d + 'functor/parallel/' + f + '.cc'
           for f in PARALLEL + (OPERATORS if operators else [])]
  todo += [d + 'operators/json_stream.cc', d + 'operators/json_stream_parser.cc']
  todo += [d + 'internal/object_id.cc', d + 'internal/pseudo_random.cc',
           d + 'data_bag.cc', d + 'internal/op_utils/trampoline_executor.cc']
  py = repo + '/py/koladata/'
  todo += [py + 'functor/parallel/py_stream.cc',
           py + 'functor/parallel/py_executor.cc', py + 'base/py_args.cc']
  todo += [d + f for f in PLAIN]
  instr, plain, seen, texts = [], [], set(), set()
  while todo:
    p = todo.pop(0)
    if p in seen or not os.path.exists(p):
      continue
    seen.add(p)
    (plain if '/op_utils/' in p and '/trampoline' not in p else instr).append(p)
    headers = [p, p[:-3] + '.h']
    while headers:
      h = headers.pop()
      if h in texts or not os.path.exists(h):
        continue
      texts.add(h)
      with open(h, encoding='utf-8') as f:
        text = f.read()
      for m in INCLUDE.finditer(text):
        if not os.path.exists(f'{CC}/shim/{m.group(1)}.h'):
          todo.append(f'{repo}/{m.group(1)}.cc')
          headers.append(f'{repo}/{m.group(1)}.h')
  return instr, plain


# The caches that threads share, compiled with the stand-ins of cc/shim15 (which
# model slices of any type) and, to keep those apart, under another namespace.
CACHES = '''py/koladata/caching/clib.cc koladata/serving/slice_registry.cc
koladata/expr/expr_eval.cc py/koladata/expr/py_expr_eval.cc
py/koladata/base/py_args.cc koladata/internal/non_deterministic_token.cc
koladata/operators/arolla_bridge.cc koladata/iterables/iterable_qtype.cc
koladata/functor/parallel/transform_config_registry.cc
koladata/functor/parallel/create_transform_config.cc
koladata/functor/parallel/transform_config.cc koladata/operators/print.cc
koladata/internal/op_utils/print.cc'''.split()


def cache_sources(repo):
  """The sources to build in that way: the known ones and what they include."""
  todo = [f'{repo}/{f}' for f in CACHES]
  res, texts = [], set()
  while todo:
    p = todo.pop(0)
    if p in res or not os.path.exists(p):
      continue
    res.append(p)
    headers = [p, p[:-3] + '.h']
    while headers:
      h = headers.pop()
      if h in texts or not os.path.exists(h):
        continue
      texts.add(h)
      with open(h, encoding='utf-8') as f:
        text = f.read()
      for m in INCLUDE.finditer(text):
        if m.group(1) == 'koladata/expr/expr_eval' or not any(
            os.path.exists(f'{CC}/{d}/{m.group(1)}.h') for d in ('shim15', 'shim')):
          todo.append(f'{repo}/{m.group(1)}.cc')
          headers.append(f'{repo}/{m.group(1)}.h')
  return res


def cache_flags(repo):
  return (['-Dkoladata=kd15',
           f'-DSHIM15_REPO_EXPR_EVAL_H="{repo}/koladata/expr/expr_eval.h"',
           '-I', CC + '/shim15'] + COMMON + INSTR + ['-I', repo])


def _run(cmd):
  r = subprocess.run(cmd, capture_output=True, text=True)
  if r.returncode != 0:
    raise BuildError(' '.join(cmd[-3:]) + '\n' + r.stderr[:4000])


def scenario_sources(scenario):
  """The scenario's source, what it shares with others, and whether it is one of
  those with the stand-ins of shim15."""
  for d in ('scen', 'scen15'):
    files = sorted(glob.glob(f'{CC}/{d}/*.cc'))
    for p in files:
      with open(p, encoding='utf-8') as f:
        if re.search(r'Scenario \w+\("%s"' % re.escape(scenario), f.read()):
          return ([p] + [q for q in files
                         if not re.match(r'p\d', os.path.basename(q))],
                  d == 'scen15')
  raise BuildError(f'no scenario {scenario}')


def build(outdir, repo='/repo', jobs=8, scenario=None):
  """Builds the simulator, for one scenario or for all of them.

  A source of the repository that does not compile matters only to the scenarios
  that need it. What `outdir` holds for another scenario is used again.
  """
  os.makedirs(outdir, exist_ok=True)
  work = []
  objs = []
  lib = []
  instr, plain = repo_sources(repo, scenario in (None, 'operators'))
  scen = sorted(glob.glob(CC + '/scen/*.cc'))
  scen15 = sorted(glob.glob(CC + '/scen15/*.cc'))
  caches = cache_sources(repo)
  if scenario:
    own, is15 = scenario_sources(scenario)
    if is15:
      scen = [q for q in scen if not re.match(r'p\d', os.path.basename(q))]
      scen15 = own
    else:
      scen, scen15, caches = own, [], []

  def obj(src, stem=''):
    return os.path.join(
        outdir, stem + os.path.relpath(src, '/').replace('/', '_')[:-3] + '.o')

  for src in scen + [CC + '/rt/cancel.cc'] + instr:
    o = obj(src)
    (lib if scenario and src in instr else objs).append(o)
    work.append(['g++'] + COMMON + INSTR + ['-I', repo, '-c', src, '-o', o])
  for src in scen15 + caches:
    o = obj(src, 'k15_')
    # The extension module registers itself.
    direct = src in scen15 or (
        src.endswith('/clib.cc') and any('p15_lru' in s for s in scen15))
    (objs if direct or not scenario else lib).append(o)
    work.append(['g++'] + cache_flags(repo) + ['-c', src, '-o', o])
  rt = []
  for src in ([CC + '/rt/vsim.cc', CC + '/rt/shim.cc']
              + sorted(glob.glob(CC + '/model/*.cc')) + plain):
    o = obj(src, 'rt_')
    rt.append(o)
    work.append(['g++'] + COMMON + ['-O2', '-I', repo, '-c', src, '-o', o])
  work.sort(key=lambda c: -os.path.getsize(c[-3]))
  failed = {}

  def compile_one(cmd):
    if scenario and os.path.exists(cmd[-1]):
      return
    try:
      _run(cmd)
    except BuildError as e:
      failed[cmd[-1]] = e
  with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    list(ex.map(compile_one, work))
  for o, e in failed.items():
    if not scenario or o in objs:
      raise e
  rt = [o for o in rt if o not in failed]
  # The runtime must not call instrumented copies of the inline functions that
  # it shares with the code under test: make its copies local to it.
  whole = os.path.join(outdir, 'rt_all.o')
  _run(['ld', '-r', '--force-group-allocation', '-o', whole] + rt)
  nm = subprocess.run(['nm', whole], capture_output=True, text=True).stdout
  weak = [l.split()[2] for l in nm.splitlines()
          if len(l.split()) == 3 and l.split()[1] in 'Wu']
  lst = os.path.join(outdir, 'weak.txt')
  with open(lst, 'w', encoding='utf-8') as f:
    f.write('\n'.join(weak) + '\n')
  _run(['objcopy', f'--localize-symbols={lst}', whole])
  binary = os.path.join(outdir, 'ccsim' + (f'_{scenario}' if scenario else ''))
  archive = []
  if scenario:
    archive = [os.path.join(outdir, f'lib_{scenario}.a')]
    _run(['ar', 'rcs', archive[0]] + [o for o in lib if o not in failed])
  # What the headers of the system's Abseil need.
  libs = sorted(glob.glob('/usr/lib/*/libabsl_*.a'))
  try:
    _run(['g++', '-no-pie', '-o', binary] + objs + [whole]
         + ['-Wl,--start-group'] + archive + libs
         + ['-Wl,--end-group', '-licuuc', '-lpthread'])
  except BuildError as e:
    raise BuildError('\n'.join(str(x) for x in [*failed.values(), e]))
  return binary


if __name__ == '__main__':
  import sys
  print(build(sys.argv[1], *(sys.argv[2:3]), scenario=(sys.argv[3:] or [None])[0]))
