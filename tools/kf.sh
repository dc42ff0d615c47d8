#!/bin/bash
# append fixed: lines for commits of /repo that known_findings.txt does not list yet: kf.sh PROPERTY
git -C /repo log --reverse --format='%h %s' aada48b..HEAD | while read h s; do grep -q "fixed: property=[^ ]* $h " /verif/known_findings.txt || echo "fixed: property=$1 $h ${s#fix: }" >> /verif/known_findings.txt; done
