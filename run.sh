#!/bin/bash
# usage: ./run.sh <property id> [--thorough]
cd "$(dirname "$0")" || exit 2
id="$1"; shift
exec python3 -B run.py "$id" "$@"
