#!/bin/bash
# replay.sh DRIVER SCENARIO SEED [key=val...]: builds from /repo and re-runs one recorded execution, verbosely.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
D=$1 S=$2 N=$3; shift 3
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
OUT=$T "$V/lib/build.sh" "$D" >&2
"$T/$D" "$S" n=1 seed="$N" verbose=1 dir="$T" out="$T/o" "$@" || true
cat "$T/o"
