#!/bin/bash
# usage: check.sh ID [-v]   decide one property from /repo's current source
cd "$(dirname "$0")" || exit 3
bash build.sh || { echo "analyzer build failed" >&2; exit 3; }
exec bin/analyzer -repo /repo -verif "$PWD" "${@:2}" "$1"
