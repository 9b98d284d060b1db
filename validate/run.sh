#!/bin/bash
# Validate the encoder: all test pages, encoding against native execution.
set -e
cd "$(dirname "$0")/.."
bash bin/build.sh
d=$(mktemp -d /tmp/vxpages.XXXXXX)
trap 'rm -rf "$d"' EXIT
python3 validate/gen.py /repo "$d"
./.build/vx -harness "$d" -only 'vhPage*' -workers 1 -time 850 | tee .build/validate.out | tail -8 | cut -c1-300
