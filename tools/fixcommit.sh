#!/bin/bash
# usage: fixcommit.sh PROPS(comma separated) "commit subject" "what failed"
set -e
cd /repo; git commit -qam "fix: $2"
h=$(git rev-parse --short=10 HEAD)
for p in ${1//,/ }; do echo "fixed: property=$p $h $3" >> /verif/KNOWN_FINDINGS; done
echo "$h $2"
