#!/bin/bash
# check.sh ID [tier]: build the harness of property ID from /repo's current
# working tree and run it.  Exit 0 held, 1 violation, anything else an error.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} MC_VERIF=$here
# memory that was never written has the same, conspicuous contents in all runs
export MALLOC_PERTURB_=128
export OMP_NUM_THREADS=1 OMP_DYNAMIC=false LC_ALL=C
case $id in
C0*) flavour=mc ;;
*) flavour=plain ;;
esac
exe=$(python3 "$here/tools/build.py" $flavour "$id") || exit 3
shift 2 2>/dev/null || shift
exec "$exe" --tier "$VERIF_TIER" "$@"
