#!/bin/bash
# check.sh ID quick|thorough: rebuilds from /repo's working tree, then explores property ID.
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
export VERIF_ROOT="$here"
exec "$here/target/release/mc" check "$1" "$2"
