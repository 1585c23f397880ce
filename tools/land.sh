#!/bin/bash
# Bring the fix commits of a scratch clone into /repo, and run the baseline tests.
set -e
git -C /repo fetch -q "${1:-/tmp/fixwt}"
git -C /repo merge -q --ff-only FETCH_HEAD
bash /opt/vp/build.sh >/tmp/land_build.log 2>&1
bash /opt/vp/test.sh /tmp/o.json >/tmp/land_test.log 2>&1 || true
python3 "$(dirname "$0")/cmpbase.py" /tmp/o.json
git -C /repo status --short
