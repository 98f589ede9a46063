#!/bin/bash
# setup.sh: builds the verifier from /verif/gocv.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
exec python3 tools/check.py --setup
