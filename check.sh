#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec python3 tools/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
