#!/bin/bash
# check.sh PROPERTY [quick|thorough] | replay FILE
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/lib/check.py" "$@"
