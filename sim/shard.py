"""One shard: a zygote interpreter that forks one child per simulated run.

Usage: python -m sim.shard --scenario mod:Class --verif-seed S --shard i
          --nshards n --runs N --wall SECS [--replay FILE] [--trace-log]
Emits one JSON object per line on stdout.
"""

import argparse
import gc
import importlib
import json
import os
import select
import signal
import sys
import traceback

from sim import core
from sim import seams

seams.install()

_real_monotonic = seams._real['monotonic']


def load_scenario(spec):
  mod, cls = spec.split(':')
  return getattr(importlib.import_module(mod), cls)()


def execute(scenario, seed=None, recorded=None, want_log=False):
  """Runs once in this process; returns a JSON-able result."""
  ch = core.Choices(seed=seed, recorded=recorded)
  res = {'ok': True, 'kind': None, 'message': None}
  sim = scenario.make_sim(ch)
  try:
    try:
      scenario.run(sim)
    except core.StepLimit as e:
      if scenario.step_limit_is_violation:
        raise core.Violation('no-progress', f'step limit reached: {e}')
      sim.probe('step-limit')
  except core.Violation as e:
    res.update(ok=False, kind=e.kind, message=e.message)
  except core.HarnessError as e:
    res.update(ok=False, kind='HARNESS', message=str(e))
  except BaseException as e:  # pylint: disable=broad-except
    if from_code_under_test(e):
      res.update(ok=False, kind='unexpected-exception',
                 message=''.join(traceback.format_exception(e))[-1500:])
    else:
      res.update(ok=False, kind='HARNESS',
                 message=''.join(traceback.format_exception(e))[-4000:])
  res.update(
      steps=sim.steps, switches=sim.switches, faults=sim.faults,
      probes=sim.probes, sig=sim.schedule_sig, nevents=len(sim.events),
      simtime=sim.now - 1_700_000_000.0, stats=sim.stats,
      nchoices=len(ch.log))
  evhash = hash_events(sim.events)
  res['evhash'] = evhash
  if not res['ok'] or want_log:
    res['choices'] = ch.log
  if want_log:
    res['events'] = [list(map(str, e)) for e in sim.events]
  return res


def from_code_under_test(e):
  """Whether the repository's code raised (and not a stand-in's limits)."""
  frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
  if not any(f.startswith('/repo/') for f in frames):
    return False
  if frames[-1].endswith('/minikd.py') or isinstance(e, NotImplementedError):
    return isinstance(e, ValueError)
  if isinstance(e, (ImportError, AttributeError)) and 'koladata.kd' in str(e):
    return False
  return True


def hash_events(events):
  import hashlib
  h = hashlib.blake2b(digest_size=8)
  for e in events:
    h.update(repr(e).encode())
  return h.hexdigest()


def forked(scenario, seed=None, recorded=None, want_log=False, timeout=120):
  """Runs once in a forked child."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(r)
      gc.disable()
      res = execute(scenario, seed, recorded, want_log)
      data = json.dumps(res).encode()
      with os.fdopen(w, 'wb') as f:
        f.write(data)
    except BaseException:  # pylint: disable=broad-except
      traceback.print_exc()
      code = 3
    finally:
      os._exit(code)
  os.close(w)
  chunks = []
  deadline = _real_monotonic() + timeout
  ok = True
  while True:
    left = deadline - _real_monotonic()
    if left <= 0:
      ok = False
      break
    rl, _, _ = select.select([r], [], [], left)
    if not rl:
      ok = False
      break
    b = os.read(r, 1 << 16)
    if not b:
      break
    chunks.append(b)
  os.close(r)
  if not ok:
    os.kill(pid, signal.SIGKILL)
  _, wstatus = os.waitpid(pid, 0)
  scenario.after_run(pid)
  if not ok or not chunks:
    return {'ok': False, 'kind': 'HARNESS', 'message': ('child hung' if not ok else
                        f'child died, wait status {wstatus:#x}'),
            'steps': 0, 'switches': 0, 'faults': {}, 'probes': {}, 'sig': 0,
            'nevents': 0, 'simtime': 0, 'stats': {}, 'evhash': '',
            'nchoices': 0}
  return json.loads(b''.join(chunks))


def minimise(scenario, choices, kind, budget_s):
  """Shrinks the choice list while the same violation kind persists."""
  deadline = _real_monotonic() + budget_s
  best = list(choices)
  tries = 0

  def fails(c):
    nonlocal tries
    tries += 1
    r = forked(scenario, recorded=c)
    return (not r['ok']) and r['kind'] == kind

  def strip(c):
    c = list(c)
    while c and c[-1] == 0:
      c.pop()
    return c

  if not fails(best):
    return None, tries
  best = strip(best)
  improved = True
  while improved and _real_monotonic() < deadline:
    improved = False
    # Delete spans, zero spans.
    size = max(1, len(best) // 2)
    while size >= 1 and _real_monotonic() < deadline:
      i = 0
      while i < len(best) and _real_monotonic() < deadline:
        for cand in (best[:i] + best[i + size:],
                     best[:i] + [0] * min(size, len(best) - i)
                     + best[i + size:]):
          cand = strip(cand)
          if cand != best and (len(cand), sum(cand)) < (len(best), sum(best)):
            if fails(cand):
              best = cand
              improved = True
              break
        else:
          i += size
          continue
        if _real_monotonic() > deadline:
          break
      size //= 2
    # Lower single values.
    for i in range(len(best)):
      if _real_monotonic() > deadline or i >= len(best):
        break
      while i < len(best) and best[i] > 0:
        lower = best[i] // 2
        cand = strip(best[:i] + [lower] + best[i + 1:])
        if fails(cand):
          best = cand
          improved = True
        else:
          break
        if _real_monotonic() > deadline:
          break
  return best, tries


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--scenario', required=True)
  ap.add_argument('--verif-seed', default='1')
  ap.add_argument('--shard', type=int, default=0)
  ap.add_argument('--nshards', type=int, default=1)
  ap.add_argument('--runs', type=int, default=100)
  ap.add_argument('--wall', type=float, default=60)
  ap.add_argument('--min-budget', type=float, default=40)
  ap.add_argument('--replay')
  ap.add_argument('--known', default='[]')
  a = ap.parse_args()
  out = sys.stdout
  sys.stdout = sys.stderr
  core.KNOWN.update(json.loads(a.known))

  def emit(o):
    out.write(json.dumps(o) + '\n')
    out.flush()

  try:
    scenario = load_scenario(a.scenario)
    scenario.setup()
  except core.Violation as e:
    emit({'type': 'setup-violation', 'kind': e.kind, 'message': e.message})
    return
  except BaseException:  # pylint: disable=broad-except
    emit({'type': 'setup-error', 'message': traceback.format_exc()[-4000:]})
    return
  gc.collect()
  gc.freeze()
  gc.disable()
  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    r = forked(scenario, recorded=rep['choices'], want_log=True)
    emit({'type': 'replay', 'result': r})
    return
  start = _real_monotonic()
  stopped = False
  for idx in range(a.shard, a.runs, a.nshards):
    if _real_monotonic() - start > a.wall:
      stopped = True
      break
    seed = f'{a.verif_seed}:{a.scenario}:{idx}'
    r = forked(scenario, seed=seed)
    r['idx'] = idx
    if r['ok']:
      emit({'type': 'run', 'result': r})
      continue
    if r['kind'] == 'HARNESS':
      emit({'type': 'run', 'result': r})
      continue
    best, tries = minimise(scenario, r['choices'], r['kind'], a.min_budget)
    if best is None:
      r['unreproducible'] = True
      best = r['choices']
    final = forked(scenario, recorded=best, want_log=True)
    r.pop('choices', None)
    emit({'type': 'violation', 'result': r, 'choices': best, 'tries': tries,
          'final': final})
    break
  emit({'type': 'end', 'stopped': stopped,
        'wall': _real_monotonic() - start})


if __name__ == '__main__':
  main()
