#!/bin/bash
# usage: tools/fix.sh PROPERTY "message" "what failed" files...   (commits a repair in /repo and records it)
set -e
prop=$1; msg=$2; what=$3; shift 3
cd ${FIXREPO:-/tmp/wrepo}
git reset -q
git add "$@"
git commit -qm "fix: $msg"
c=$(git rev-parse --short=10 HEAD)
echo "fixed: property=$prop $c $what" >> /verif/known_findings.jsonl
echo "$c $msg"
