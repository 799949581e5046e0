#!/bin/bash
# run.sh PROPERTY TIER SEED OUT.json [more]: the concrete harness against REPO (default /repo)
cd /
NC=$(mktemp -d /tmp/wwnc.XXXXXX)
trap 'rm -rf "$NC"' EXIT
here=$(dirname "$(readlink -f "$0")")
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR=$NC PYTHONPATH=${REPO:-/repo}
[ "$1" = C19 ] && export NUMBA_BOUNDSCHECK=1
/opt/venv/bin/python "$here/main.py" "$@"
