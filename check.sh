#!/bin/bash
# check.sh PROP TIER: build the model checker against /repo's working tree and decide PROP.
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || { echo "could not build against /repo"; exit 2; }
[ "$1" = build ] && exit 0
mkdir -p "$here/evidence" "$here/out"
MC_DIR="$here" exec "$here/mc/target/release/mc" check "$1" "$2"
