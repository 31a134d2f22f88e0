#!/bin/bash
# usage: run.sh Cxx [--tier quick|thorough] [--seed N] [--replay FILE] [--only WORKLOAD]
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="${QOSY_REPO:-/repo}:$here"
export PYTHONPYCACHEPREFIX=$(mktemp -d)
trap 'rm -rf "$PYTHONPYCACHEPREFIX"' EXIT
export MPLCONFIGDIR="$PYTHONPYCACHEPREFIX/mpl"; mkdir -p "$MPLCONFIGDIR"
cd "$here" || exit 2
/opt/venv/bin/python -W ignore -m mon "$@"
exit $?
