"""Self-test: one seed is one execution, and a recording replays it exactly.

python -m sim.determinism SPEC [N]   (spec as in the registry; run via
tools/determinism.sh, which sets up the environment)
"""

import sys

from sim import shard


def main():
  spec, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 40
  sc = shard.load_scenario(spec)
  sc.setup()
  import gc
  gc.collect()
  gc.freeze()
  gc.disable()
  bad = 0
  for i in range(n):
    seed = f'det:{spec}:{i}'
    a = shard.forked(sc, seed=seed, want_log=True)
    b = shard.forked(sc, seed=seed, want_log=True)
    c = shard.forked(sc, recorded=a['choices'], want_log=True)
    for name, o in (('seed', b), ('recording', c)):
      if a['events'] != o['events'] or a['choices'] != o['choices'] or (
          a['ok'], a['kind']) != (o['ok'], o['kind']):
        bad += 1
        print(f'{spec} run {i}: second execution from the {name} differs')
        for x, y in zip(a['events'], o['events']):
          if x != y:
            print('   ', x, '\n   ', y)
            break
        break
  print(f'{spec}: {n} seeds, {bad} nondeterministic')
  return 1 if bad else 0


if __name__ == '__main__':
  sys.exit(main())
