#!/bin/bash
# runs some checks, all violations, short output
cd "$(dirname "$0")/.."; for i in "$@"; do echo "== $i"; (time MC_ALL=1 timeout 880 bash check.sh $i) 2>&1 | grep -v "^$\|user\|sys\|replay file" | cut -c1-500 | tail -${LINES_MAX:-12}; done
