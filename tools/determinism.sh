#!/bin/bash
# tools/determinism.sh [N]: runs N seeds of every Python scenario three times
# (twice from the seed, once from the recording) and compares the full logs.
cd "$(dirname "$0")/.." || exit 1
export PYTHONDONTWRITEBYTECODE=1
gen=$(mktemp -d); trap 'rm -rf "$gen"' EXIT
PYTHONPATH=$PWD /opt/venv/bin/python -c "from sim import runner; runner.gen_protos('$gen')"
rc=0
specs=${SPECS:-$(PYTHONPATH=$PWD /opt/venv/bin/python -c "
from sim import registry
print('\n'.join(sorted({s['spec'] for p in registry.PROPERTIES.values() for s in p['scenarios'] if not s['spec'].startswith('cc:')})))")}
for s in $specs; do
  for h in 0 4242; do
  PYTHONHASHSEED=$h PYTHONPATH=$PWD:/repo/py:$gen/py:$gen VERIF_GEN=$gen TZ=UTC \
    /opt/venv/bin/python -m sim.determinism "$s" "${1:-40}" || rc=1
  done
done
exit $rc
