#!/bin/bash
# nothing has to be installed; the checks build what they need from /repo's working tree
cd "$(dirname "$0")/.." && mkdir -p build work evidence && chmod +x lib/*.sh bin/check && python3 -c 'import sys; sys.path.insert(0,"lib"); import checks; print(len(checks.CHECKS), "checks")'
