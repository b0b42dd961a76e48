"""Driver of a check: python -m sim.runner PROPERTY --tier quick|thorough."""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
OUT = os.path.join(VERIF, 'out')


def gen_protos(dst):
  """Generates the pb2 modules the Python code under test needs."""
  inc = subprocess.check_output(
      [PY, '-c', 'import os, grpc_tools; print(os.path.join('
       'os.path.dirname(grpc_tools.__file__), "_proto"))'],
      text=True).strip()
  protos = []
  for root in ('koladata', 'py'):
    for d, _, fs in os.walk(os.path.join(REPO, root)):
      for f in fs:
        if f.endswith('.proto'):
          p = os.path.relpath(os.path.join(d, f), REPO)
          if p != 'koladata/s11n/codec.proto':
            protos.append(p)
  r = subprocess.run(
      [PY, '-m', 'grpc_tools.protoc', '-I.', f'-I{inc}',
       f'--python_out={dst}'] + sorted(protos),
      cwd=REPO, capture_output=True, text=True)
  if r.returncode:
    raise RuntimeError('protoc failed: ' + r.stderr[-2000:])


def base_env(gen):
  env = dict(os.environ)
  for k in list(env):
    if k.startswith('PYTHON'):
      env.pop(k)
  env.update(
      PYTHONPATH=':'.join([VERIF, REPO + '/py', gen + '/py', gen]),
      PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
      VERIF_GEN=gen)
  return env


def hashseed(verif_seed, shard):
  return str((int(verif_seed) * 7919 + shard * 104729) % 4294967295)


def run_shards(spec, tier_cfg, verif_seed, env, known, nworkers, logf):
  """Runs all logical shards of a scenario, nworkers at a time."""
  nshards = tier_cfg.get('shards', 16)
  pending = list(range(nshards))
  active = {}
  runs, violations, errors, notes = [], [], [], []
  known_hits = {}
  t0 = time.monotonic()
  wall = tier_cfg['wall']
  per_shard_wall = wall * nworkers / nshards * 0.95

  def launch(i):
    e = dict(env, PYTHONHASHSEED=hashseed(verif_seed, i))
    errf = tempfile.TemporaryFile()
    outf = tempfile.TemporaryFile()
    p = subprocess.Popen(
        [PY, '-m', 'sim.shard', '--scenario', spec, '--verif-seed',
         str(verif_seed), '--shard', str(i), '--nshards', str(nshards),
         '--runs', str(tier_cfg['runs']), '--wall', str(per_shard_wall),
         '--min-budget', str(tier_cfg.get('min_budget', 40)),
         '--known', json.dumps(sorted(known))],
        cwd=VERIF, env=e, stdout=outf, stderr=errf)
    active[i] = (p, outf, errf, time.monotonic())

  stop = False
  while pending or active:
    while pending and len(active) < nworkers and not stop:
      launch(pending.pop(0))
    if stop:
      pending = []
    for i, (p, outf, errf, st) in list(active.items()):
      limit = per_shard_wall + 300
      if p.poll() is None:
        if time.monotonic() - st > limit:
          p.kill()
          p.wait()
          errors.append(f'shard {i} killed after {limit:.0f}s')
        else:
          continue
      outf.seek(0)
      ended = False
      for line in outf.read().decode().splitlines():
        try:
          o = json.loads(line)
        except ValueError:
          continue
        if o['type'] == 'run':
          r = o['result']
          runs.append(r)
          for k in (r.get('probes') or {}):
            if k.startswith('known:'):
              known_hits.setdefault(k[6:], []).append(r.get('idx'))
          if r['kind'] == 'HARNESS':
            errors.append(f"run {r.get('idx')}: {r['message']}")
        elif o['type'] == 'violation':
          o['shard'] = i
          violations.append(o)
          runs.append(o['result'])
          stop = True
        elif o['type'] == 'setup-violation':
          o['shard'] = i
          violations.append({
              'shard': i, 'result': {'idx': -1, 'kind': o['kind'],
                                     'message': o['message']},
              'choices': [], 'final': {'kind': o['kind'],
                                       'message': o['message'],
                                       'events': []}})
          stop = True
        elif o['type'] == 'setup-error':
          errors.append('setup: ' + o['message'])
          stop = True
        elif o['type'] == 'end':
          ended = True
      errf.seek(0)
      err = errf.read().decode(errors='replace')
      if err.strip():
        logf.write(f'--- shard {i} stderr\n{err[-4000:]}\n')
      if not ended and not stop:
        errors.append(f'shard {i} ended early: {err[-500:]}')
      del active[i]
    if stop:
      # Let shards that are minimising finish quickly; stop the rest.
      if violations:
        for i, (p, *_rest) in list(active.items()):
          p.kill()
          p.wait()
        active.clear()
    time.sleep(0.02)
  return runs, violations, errors, known_hits, time.monotonic() - t0


def load_known(prop):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    data = json.load(f)
  return [k for k in data.get('findings', []) if k['property'] == prop]


def replay_file(path, env):
  with open(path) as f:
    rep = json.load(f)
  e = dict(env, PYTHONHASHSEED=str(rep['hashseed']))
  r = subprocess.run(
      [PY, '-m', 'sim.shard', '--scenario', rep['scenario'], '--replay', path,
       '--known', json.dumps(sorted(
           k['kind'] for k in load_known(rep['property'])))],
      cwd=VERIF, env=e, capture_output=True, text=True, timeout=300)
  for line in r.stdout.splitlines():
    o = json.loads(line)
    if o['type'] == 'replay':
      return o['result']
    if o['type'] == 'setup-violation':
      return {'ok': False, 'kind': o['kind'], 'message': o['message'],
              'evhash': ''}
  raise RuntimeError('replay gave no result: ' + r.stderr[-2000:])


def main(argv=None):
  from sim import registry
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--workers', type=int, default=8)
  ap.add_argument('--runs', type=int)
  ap.add_argument('--wall', type=float)
  ap.add_argument('--only')
  a = ap.parse_args(argv)
  seed = os.environ.get('VERIF_SEED', '1')
  try:
    int(seed)
  except ValueError:
    seed = str(sum(seed.encode()))
  prop = registry.PROPERTIES[a.property]
  os.makedirs(OUT + '/replays', exist_ok=True)
  os.makedirs(OUT + '/logs', exist_ok=True)
  os.makedirs(VERIF + '/evidence', exist_ok=True)
  print(f'property={a.property} tier={a.tier} VERIF_SEED={seed}', flush=True)
  t0 = time.monotonic()
  gen = tempfile.mkdtemp(prefix='vp-gen-')
  rc = 0
  try:
    gen_protos(gen)
    env = base_env(gen)
    env['VERIF_TIER_RUN'] = a.tier
    if a.replay:
      with open(a.replay) as f:
        rep = json.load(f)
      if rep.get('engine') == 'cc':
        from sim import ccrunner
        res = ccrunner.replay(a.replay, rep)
      else:
        res = replay_file(a.replay, env)
      for ev in res.get('events', []):
        print('  ', ' '.join(ev))
      if res['ok']:
        print('replay: property held')
        return 0
      print(f"replay: {res['kind']}: {res['message']}")
      print(f'VIOLATION property={a.property} replay={a.replay}')
      return 1
    known = load_known(a.property)
    known_kinds = {k['kind'] for k in known}
    all_runs, all_errors, violation = [], [], None
    per_scenario = []
    known_hits = {}
    n_runs = 0
    with open(f'{OUT}/logs/{a.property}-{a.tier}.log', 'w') as logf:
      for sc in prop['scenarios']:
        if a.only and a.only not in sc['spec']:
          continue
        cfg = dict(sc[a.tier])
        if a.runs:
          cfg['runs'] = a.runs
        if a.wall:
          cfg['wall'] = a.wall
        if sc['spec'].startswith('cc:'):
          from sim import ccrunner
          runs, viols, errors, kh, wall = ccrunner.run_scenario(
              sc['spec'], cfg, seed, known_kinds, a.workers, logf)
        else:
          runs, viols, errors, kh, wall = run_shards(
              sc['spec'], cfg, seed, env, known_kinds, a.workers, logf)
        for k, v in kh.items():
          known_hits.setdefault(k, []).extend(v)
        per_scenario.append(summary(sc, runs, wall))
        all_runs += [dict(r, scenario=sc['spec']) for r in runs]
        n_runs += per_scenario[-1]['runs']
        all_errors += errors
        if viols:
          viols.sort(key=lambda v: len(v['choices'])
                     if isinstance(v['choices'], list) else 0)
          violation = (sc, viols[0])
          break
    if violation:
      sc, v = violation
      path = (f"{OUT}/replays/{a.property}-{seed}-"
              f"{v['result'].get('idx')}.json")
      rep = {
          'property': a.property, 'scenario': sc['spec'],
          'engine': 'cc' if sc['spec'].startswith('cc:') else 'py',
          'verif_seed': seed, 'run_index': v['result'].get('idx'),
          'hashseed': hashseed(seed, v['shard']),
          'kind': v['final'].get('kind'), 'message': v['final'].get('message'),
          'choices': v['choices'], 'trace': v['final'].get('events'),
      }
      with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
      if rep['engine'] == 'cc':
        from sim import ccrunner
        again = ccrunner.replay(path, rep)
      else:
        again = replay_file(path, env)
      if again['ok'] or again['kind'] != v['final'].get('kind'):
        all_errors.append(
            f"violation {v['result']['kind']} did not replay: {v['result']}"
            f' -> {again.get("kind")} {again.get("message")}')
        violation = None
        rc = 2
      else:
        print(f"  {again['kind']}: {again['message']}")
        for ev in (again.get('events') or [])[-60:]:
          print('    ', ' '.join(ev))
        print(f'VIOLATION property={a.property} replay={path}', flush=True)
        rc = 1
    for k in known:
      hits = known_hits.get(k['kind'], [])
      print(f"KNOWN-FINDING: property={a.property} {k['kind']}: {k['what']}"
            f' (met in {len(hits)} runs of this batch)')
    if all_errors and rc in (0, 2):
      for e in all_errors[:5]:
        print('HARNESS-ERROR:', e[-3000:])
      rc = 2
    write_evidence(a.property, prop, a.tier, seed, all_runs, per_scenario,
                   time.monotonic() - t0, 1 if rc == 1 else 0, all_errors)
    print(f'{a.property}: {n_runs} simulated runs, rc={rc}, '
          f'{time.monotonic()-t0:.1f}s')
    return rc
  finally:
    shutil.rmtree(gen, ignore_errors=True)


def summary(sc, runs, wall):
  if hasattr(runs, 'agg'):
    a = runs.agg
    n = a.get('runs', 0)
    return {
        'scenario': sc['spec'], 'runs': n, 'wall_s': round(wall, 2),
        'runs_per_hour': int(n / max(wall, 1e-3) * 3600),
        'faults_injected': {k: v[0] for k, v in a.get('faults', {}).items()},
        'runs_with_fault': {k: v[1] for k, v in a.get('faults', {}).items()},
        'scheduler_steps': a.get('steps', 0),
        'context_switches': a.get('switches', 0),
        'runs_cut_off_by_step_limit': a.get('limits', 0),
        'max_threads': a.get('threads', 0),
        'simulated_seconds': 0.0,
        'distinct_event_logs': a.get('distinct', 0),
        'distinct_schedules': a.get('distinct', 0),
        'distinct_nontrivial': a.get('distinct', 0),
    }
  faults, probes = {}, {}
  for r in runs:
    for k, v in (r.get('faults') or {}).items():
      faults[k] = faults.get(k, 0) + v
    for k, v in (r.get('probes') or {}).items():
      probes[k] = probes.get(k, 0) + v
  return {
      'scenario': sc['spec'], 'runs': len(runs), 'wall_s': round(wall, 2),
      'runs_per_hour': int(len(runs) / max(wall, 1e-3) * 3600),
      'faults_injected': faults, 'probes': probes,
      'scheduler_steps': sum(r.get('steps', 0) for r in runs),
      'context_switches': sum(r.get('switches', 0) for r in runs),
      'simulated_seconds': round(sum(r.get('simtime', 0) for r in runs), 3),
      'distinct_event_logs': len({r.get('evhash') for r in runs}),
      'distinct_schedules': len({r.get('sig') for r in runs}),
      'distinct_nontrivial': len({
          (r.get('evhash'), r.get('sig')) for r in runs
          if r.get('nevents', 0) > 0 or r.get('steps', 0) > 0}),
  }


def write_evidence(pid, prop, tier, seed, runs, per, wall, nviol, errors):
  n = sum(p['runs'] for p in per)
  faults = {}
  for p in per:
    for k, v in p['faults_injected'].items():
      faults[k] = faults.get(k, 0) + v
  samples = []
  for r in runs[:: max(1, len(runs) // 5)][:5]:
    samples.append({
        'scenario': r.get('scenario'), 'run_index': r.get('idx'),
        'steps': r.get('steps'), 'switches': r.get('switches'),
        'faults': r.get('faults'), 'event_log_hash': r.get('evhash'),
        'choices': r.get('nchoices')})
  ev = {
      'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
      'seed': int(seed), 'level': 'exploration',
      'coverage': {
          'evaluations': max(1, n),
          'distinct_nontrivial': sum(p['distinct_nontrivial'] for p in per),
          'rule': ('a run counts as nontrivial when it executed at least one '
                   'scheduler step or recorded event of the code under test; '
                   'two runs are distinct when their (scenario, full event '
                   'log hash, context-switch signature) differ'),
          'samples': samples,
          'runs_and_seeds_per_hour': int(n / max(wall, 1e-3) * 3600),
          'simulated_seconds': round(
              sum(p['simulated_seconds'] for p in per), 3),
          'faults_injected': faults,
          'distinct_schedules': sum(p['distinct_schedules'] for p in per),
          'per_scenario': per,
          'components_real': prop.get('real', []),
          'components_stub': prop.get('stub', []),
          'harness_errors': errors[:5],
      },
      'wall_s': round(wall, 2), 'violations': nviol,
      'assumptions': prop.get('assumptions', []),
  }
  with open(f'{VERIF}/evidence/{pid}.json', 'w') as f:
    json.dump(ev, f, indent=1, default=str)
    f.write('\n')


if __name__ == '__main__':
  sys.exit(main())
