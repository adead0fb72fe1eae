#!/bin/bash
# check.sh <property> [quick|thorough]   or   check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export PYTHONPATH= PYTHONWARNINGS=ignore
exec $PY -m sim.main "$@"
