#!/bin/bash
# check.sh PROPERTY [--tier T] ...: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
exec python3 -m absint.check "$@"
