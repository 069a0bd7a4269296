#!/bin/sh
# ./check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
PYTHONHASHSEED=0 exec python3-vt -m cppv.check "$1" "$2"
