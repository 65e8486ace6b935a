#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's working tree.
# VERIF_SEED and VERIF_TIER (quick or thorough) are taken from the environment.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
cli=""
case "$id" in C16|C17|C18) cli=--cli ;; esac
bash "$here/build.sh" $cli || { echo "$id: the harness does not build" >&2; exit 3; }
cd "$here" || exit 3
export VH_ROOT="$here"
exec "$here/harness/target/debug/vh" "$id"
