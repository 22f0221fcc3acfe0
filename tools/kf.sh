#!/bin/bash
# kf.sh PROPERTY [COMMIT]: record a repaired defect
c=$(git -C /repo log -1 --format=%h ${2:-HEAD}); s=$(git -C /repo log -1 --format=%s ${2:-HEAD})
echo "fixed: property=$1 $c ${s#fix: }" >> /verif/known_findings.txt
