#!/bin/bash
# addfix.sh <ID> <text in the commit subject> <what failed>: records a repair
H=$(git -C /repo log --format='%h %s' | grep -F "$2" | head -1 | cut -d' ' -f1)
[ -n "$H" ] || { echo "no commit for $2"; exit 1; }
echo "fixed: property=$1 $H $3" >> /verif/known-findings.txt
