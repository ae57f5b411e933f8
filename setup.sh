#!/bin/sh
# Nothing to build: contracts, harnesses and the engine are used from source on every run.
set -e
cd "$(dirname "$0")"
for t in cbmc goto-cc goto-instrument gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c "import vf.units"
