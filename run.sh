#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--jobs N]
. /opt/vp/env.sh
cd "$(dirname "$(readlink -f "$0")")" || exit 4
export PYTHONPATH="$PWD:$PWD/stubs:${VERIF_PYPATH:-/opt/pypath}"
export PYTHONUNBUFFERED=1
exec /usr/bin/python3 -m monitors.main "$@"
