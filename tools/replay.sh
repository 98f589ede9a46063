#!/bin/bash
# replay.sh FILE: re-runs the failing input recorded in a replay file against /repo.
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec python3 tools/check.py --replay "$1"
