#!/bin/bash
# check.sh <property> [quick|thorough] : decides one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/lib:$here/checks" PYTHONHASHSEED=0 TZ=VRF-5:45 PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python -B "$here/checks/run.py" "$@"
