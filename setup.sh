#!/bin/bash
# Nothing to compile ahead of time: the checks import /repo/src directly and
# build the small LD_PRELOAD shim (mc/native) in their own scratch directory.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "."); import mc.core' && gcc --version >/dev/null
