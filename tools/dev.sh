#!/bin/bash
# dev.sh driver "scenario params" n [seed]: build into build/dev and run, summarise
cd "$(dirname "$0")/.."; mkdir -p build/dev; OUT=build/dev lib/build.sh $1 || exit 1
build/dev/$1 $2 n=$3 seed=${4:-1} out=/tmp/o.nd dir=/tmp; grep -o '"st":"[a-z]*"' /tmp/o.nd | sort | uniq -c; echo crash $(grep -c Crash /tmp/o.nd) stuck $(grep -c Stuck /tmp/o.nd); head -${5:-15} /tmp/o.nd.err
