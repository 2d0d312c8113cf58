#!/bin/bash
# Nothing is built: the specifications are checked from source and the code under test is imported from /repo.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import dissect.volume.exceptions"
echo setup ok
