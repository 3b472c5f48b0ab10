#!/bin/bash
# Nothing to build: checks that what the checks need is there.
here="$(cd "$(dirname "$0")/.." && pwd)"
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
cd "$here/harness"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import model, execute, encode, gen, suites; print(len(suites.SUITES), 'properties, yaml', model.HAVE_YAML)"
