#!/bin/bash
# fixed.sh <property> <n>: records the last n commits of /repo as fixed defects of a property.
git -C /repo log -"$2" --reverse --format="fixed: property=$1 %h %s" | sed 's/ fix: / /' >> /verif/known_findings.txt
tail -"$2" /verif/known_findings.txt
