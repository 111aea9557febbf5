#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
# Builds the analyser when it is missing or older than its sources and lets it
# decide the property on the current source tree of /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
"$here/build.sh" || {
	mkdir -p "$here/evidence"
	echo "the analyser does not build" >"$here/evidence/$1.violations.txt"
	echo "VIOLATION property=$1 replay=$here/evidence/$1.violations.txt"
	exit 1
}
export GMV_VERIF="$here"
timeout 850 "$here/build/gmv" check "$1" "$tier"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	mkdir -p "$here/evidence"
	echo "the analysis ended with status $rc (time or memory limit)" >"$here/evidence/$1.violations.txt"
	echo "VIOLATION property=$1 replay=$here/evidence/$1.violations.txt"
	exit 1
fi
exit $rc
