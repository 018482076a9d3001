#!/bin/bash
# Builds everything once, as every check does again from the current tree.
set -eu
verif=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/ouro-setup.XXXXXX)
trap 'rm -rf "$dir"' EXIT
"$verif/build.sh" "${OURO_REPO:-/repo}" "$dir"
"$dir/sim" -mode=list >/dev/null
