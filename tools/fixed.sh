#!/bin/bash
# fixed.sh PROP "words of the commit" "what failed"  - records a repair
h=$(git -C /repo log --format=%h -1 --grep="$2"); [ -n "$h" ] || { echo no commit; exit 1; }
echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt
