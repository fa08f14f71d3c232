#!/bin/bash
# t.sh MODULE [CFG]: run TLC on a model, show the essential output
cd "$(dirname "$0")/../spec"; tlc -config "${2:-$1.cfg}" -workers 6 -metadir /tmp/tlcmd$$ $1.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting\|^TLC2\|^Running\|calculated\|because two\|Estimates\|^Progress" | tail -${3:-40}; rm -rf /tmp/tlcmd$$
