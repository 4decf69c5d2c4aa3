#!/bin/bash
# Everything is built on demand by the checks; this only warms the build folder.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p .build evidence
/opt/vp/venv/bin/python - <<'P' || echo "setup: prebuild skipped"
import sys; sys.path.insert(0, "lib")
import vp
vp.build("all")
P
exit 0
