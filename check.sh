#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: run one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m mc "$1" "${2:-${VERIF_TIER:-quick}}"
