#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
mpl=$(mktemp -d /tmp/verif_mpl.XXXXXX) || exit 2
export MPLCONFIGDIR=$mpl VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export PYTHONWARNINGS=ignore
/opt/venv/bin/python -u "$here/harness/main.py" "$1" "$tier"
rc=$?
rm -rf "$mpl"
exit $rc
