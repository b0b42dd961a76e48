#!/bin/bash
# Nothing to fetch; verifies that the interpreter and the simulator load.
cd "$(dirname "$0")" || exit 1
mkdir -p out evidence
env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c 'import sim.registry, grpc_tools'
