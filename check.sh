#!/bin/bash
# check.sh <property> [--replay <failfile>]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec python3 tools/check.py "$@"
