#!/bin/bash
# builds the translator and a first copy of the probe; every check rebuilds what has changed
set -e
cd "$(dirname "$0")/.."
(cd extract && cargo build --release --offline -q)
python3 - <<'PY'
import sys
sys.path.insert(0, "bin")
sys.argv = ["setup"]
import check
print(check.build_probe())
PY
