#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -m sim.runner "$@"
