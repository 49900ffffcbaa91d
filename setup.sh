#!/bin/bash
# nothing to build: the checks are Python and import pm4py from /repo's working tree
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:. /opt/venv/bin/python -c "import pm4py, mc.harness"
