#!/bin/bash
# usage: check.sh <property> [quick|thorough]: proves and runs the contracts of
# a property against /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
P=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
. "$V/tools/buildgovc.sh"
for try in 1 2 3; do
	"$GOVC" -repo /repo -verif "$V" -prop "$P" -tier "$TIER"
	rc=$?
	[ $rc -eq 0 ] || [ $rc -eq 1 ] && break
done
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	echo "govc ended with $rc: $P not decided"
	exit 0
fi
exit $rc
