#!/bin/bash
# Runs the repository's own storage tests against sim/minikd.py, to show how
# faithful the stub is (needs /opt/vp/build.sh to have been run). Informational.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/common.sh
export TEST_TMPDIR="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf "$TEST_TMPDIR"' EXIT
export PYTHONPATH=$PYTHONPATH:/opt/vp/plugins:$here/minikd_validation:$here/..
cd /repo || exit 1
for t in data_bag_manager_test schema_helper_test stubs_and_minimal_bags_lib_test \
  value_presence_util_test bare_root_initial_data_manager_test \
  composite_initial_data_manager_test data_slice_path_test \
  data_slice_manager_test data_slice_manager_view_test; do
  echo "== $t"
  $PY -m pytest -q -p no:cacheprovider -p kd_absl_flags -p minikd_plugin \
    --import-mode=importlib --rootdir=/repo --timeout=300 --tb=line \
    py/koladata/ext/storage/$t.py 2>&1 | grep -E "FAILED|passed|failed" | cut -c1-200
done
