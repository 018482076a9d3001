#!/bin/bash
# check.sh PROPERTY [extra sim flags]: builds the simulator from /repo's
# current tree in a scratch directory and searches for violations of PROPERTY.
# Exit 0: none found; 1: violation (with a VIOLATION line); 2: the check itself failed.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
prop=$1
shift
repo=${OURO_REPO:-/repo}
build=$(mktemp -d /tmp/ouro-check.XXXXXX) || exit 2
trap 'rm -rf "$build"' EXIT
"$verif/build.sh" "$repo" "$build" || { echo "check error: build failed" >&2; exit 2; }
# Memory that the code under test asks for out of proportion must not take the machine down.
ulimit -v 12000000 2>/dev/null
"$build/sim" -prop="$prop" -tier="${VERIF_TIER:-quick}" -seed="${VERIF_SEED:-1}" -verif="$verif" "$@"
rc=$?
[ $rc -gt 1 ] && rc=2
exit $rc
