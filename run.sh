#!/bin/bash
# run.sh PROPERTY [quick|thorough] : analyse /repo's current sources for one property
cd "$(dirname "$0")"
mkdir -p build evidence
ulimit -s unlimited 2>/dev/null || ulimit -s 1000000 2>/dev/null || true
exec python3 -B -m fstatic.harness "$@"
