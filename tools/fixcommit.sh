#!/bin/bash
# usage: fixcommit.sh PROP "fix: message" "what failed"   (commits /repo working tree as one fix)
set -e
cd /repo
git diff --stat | tail -1
git commit -qam "$2"
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/known_findings.jsonl
echo $h
