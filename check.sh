#!/bin/sh
# Decides one property: ./check.sh C06
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m irv.check "$1"
