#!/bin/bash
# Nothing is compiled: only verify that everything the checks need can be imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:"$PWD"
exec /opt/venv/bin/python -c "from dst import boot, registry; print(len(registry.PROPERTIES), 'properties')"
