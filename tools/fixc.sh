#!/bin/bash
# fixc.sh PROPERTY "commit message" "what failed": commit the edit of strtk.hpp as a fix and record it
R=${VERIF_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd)
git -C $R commit -qam "fix: $2" && echo "fixed: property=$1 $(git -C $R rev-parse --short HEAD) $3" >> $V/known_findings.txt
