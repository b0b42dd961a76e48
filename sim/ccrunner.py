"""Runs the C++ scenarios: builds cc/ against /repo's tree, then searches."""

import atexit
import json
import os
import shutil
import subprocess
import tempfile
import time

from sim import ccbuild

REPO = '/repo'
_BUILT = {}


class BuildFailed(Exception):
  pass


def binary(scenario):
  """Builds once per process, from the current tree, in a scratch folder."""
  if scenario not in _BUILT:
    if 'dir' not in _BUILT:
      _BUILT['dir'] = tempfile.mkdtemp(prefix='vp-cc-')
      atexit.register(shutil.rmtree, _BUILT['dir'], ignore_errors=True)
    d = _BUILT['dir']
    _BUILT[scenario] = ccbuild.build(
        d, REPO, max(2, os.cpu_count() or 8), scenario)
  return _BUILT[scenario]


class Runs(list):
  """A few sample runs, and the totals of all of them."""
  agg: dict


def _env():
  return {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LANG': 'C.UTF-8',
          'TZ': 'UTC'}


def _events(log):
  return [l.split() for l in (log or '').splitlines() if l.strip()]


def _replay(w, s, scenario, known=(), minimise=0, wall=40, verbose=True):
  with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
    json.dump([w, s], f)
    f.flush()
    cmd = [binary(scenario), '--scenario', scenario, '--replay', f.name,
           '--known', ','.join(sorted(known))]
    if verbose:
      cmd.append('--verbose')
    if minimise:
      cmd += ['--minimise', str(minimise), '--wall', str(wall)]
    r = subprocess.run(cmd, capture_output=True, text=True, errors='replace',
                       env=_env(), timeout=600)
  for line in r.stdout.splitlines():
    try:
      o = json.loads(line, strict=False)
    except ValueError:
      continue
    if o.get('t') == 'run':
      return o
  raise RuntimeError(f'no result (rc={r.returncode}): {r.stderr[-2000:]}')


def run_scenario(spec, cfg, seed, known, workers, logf):
  scenario = spec[3:]
  runs = Runs()
  runs.agg = {}
  try:
    exe = binary(scenario)
  except ccbuild.BuildError as e:
    return (runs, [], [f'the simulator does not build against this tree: {e}'],
            {}, 0.0)
  t0 = time.monotonic()
  wall = cfg['wall']
  per = -(-cfg['runs'] // workers)
  procs = []
  for k in range(workers):
    out = tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()
    procs.append([subprocess.Popen(
        [exe, '--scenario', scenario, '--seed', str(seed), '--first', str(k),
         '--stride', str(workers), '--runs', str(per), '--wall', str(wall),
         '--known', ','.join(sorted(known))],
        stdout=out, stderr=err, env=_env()), out, err, k])
  errors, raw, known_hits = [], [], {}
  agg = dict(runs=0, steps=0, switches=0, limits=0, threads=0, faults={},
             distinct=0)
  hashes = set()
  found = False
  active = list(procs)
  while active:
    for rec in list(active):
      p, out, err, k = rec
      if p.poll() is None:
        if found:
          # Another worker has a violation: no need to search on.
          p.kill()
          p.wait()
          active.remove(rec)
        elif time.monotonic() - t0 > wall + 120:
          p.kill()
          p.wait()
          errors.append(f'worker {k} did not stop')
          active.remove(rec)
        continue
      active.remove(rec)
      out.seek(0)
      ended = False
      for line in out.read().decode(errors='replace').splitlines():
        try:
          o = json.loads(line, strict=False)
        except ValueError:
          continue
        if o['t'] == 'sum':
          ended = True
          for f in ('runs', 'steps', 'switches', 'limits'):
            agg[f] += o[f]
          agg['threads'] = max(agg['threads'], o['threads'])
          for n, (c, r) in o['faults'].items():
            a = agg['faults'].setdefault(n, [0, 0])
            a[0] += c
            a[1] += r
          hashes.update(o['hashes'])
        elif o['state'] == 2:
          if o['kind'] in known:
            known_hits.setdefault(o['kind'], []).append(o['idx'])
          else:
            raw.append(o)
            found = True
        elif o['state'] == 3:
          logf.write(f"limit: run {o['idx']}: {o['message']}\n")
        else:
          runs.append(dict(idx=o['idx'], steps=o['steps'],
                           switches=o['switches'],
                           faults=o['faults'], evhash=o['hash'],
                           nchoices=None))
      if not ended:
        err.seek(0)
        errors.append(f'worker {k} ended with {p.returncode}: '
                      + err.read().decode(errors='replace')[-1500:])
    time.sleep(0.02)
  # Runs cut off by the step limit are no answer when they are common.
  if agg['limits'] * 200 > agg['runs'] and agg['limits'] > 3:
    errors.append(f"{agg['limits']} of {agg['runs']} runs hit the step limit")
  agg['distinct'] = len(hashes)
  runs.agg = agg
  search_wall = time.monotonic() - t0
  viols = []
  raw.sort(key=lambda o: o['steps'])
  for o in raw[:1]:
    res = dict(idx=o['idx'], kind=o['kind'], message=o['message'])
    try:
      m = _replay(o['w'], o['s'], scenario, known,
                  minimise=cfg.get('min_budget', 3000), wall=40)
      if m['state'] != 2 or m['kind'] != o['kind']:
        m = _replay(o['w'], o['s'], scenario, known)
    except RuntimeError as e:
      errors.append(f"run {o['idx']} {o['kind']}: {e}")
      continue
    final = dict(kind=m['kind'], message=m['message'],
                 events=_events(m.get('log')))
    viols.append(dict(shard=0, result=res, final=final,
                      choices={'w': m['w'], 's': m['s']}))
  if viols:
    errors = [e for e in errors if not e.startswith('worker')]
  return runs, viols, errors, known_hits, search_wall


def replay(path, rep):
  del path
  known = ()
  o = _replay(rep['choices']['w'], rep['choices']['s'], rep['scenario'][3:],
              known)
  return dict(ok=o['state'] != 2, kind=o['kind'], message=o['message'],
              evhash=o['hash'], events=_events(o.get('log')))
