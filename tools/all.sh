#!/bin/bash
# runs every claimed check: tools/all.sh quick|thorough [IDs]; one line per check in /tmp/all-TIER.txt
cd "$(dirname "$0")/.."
T=${1:-quick}; shift
: > /tmp/all-$T.txt
for c in ${@:-$(cd checks; ls c[0-9]*.py | sed 's/.py//' | tr a-z A-Z)}; do
  s=$(date +%s)
  timeout ${LIMIT:-900} ./check $c $T > /tmp/all-$T-$c.log 2>&1; rc=$?
  echo "$c rc=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/all-$T-$c.log)" >> /tmp/all-$T.txt
done
echo done >> /tmp/all-$T.txt
