#!/bin/bash
# usage: ./check.sh <property> [quick|thorough]      decide one property on /repo's working tree
#        ./check.sh replay <replay file>             re-execute one reported violation
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
