#!/bin/bash
# run every check one after the other: runall.sh [tier] [ids...]; prints id, exit status and seconds
cd /verif
T=${1:-quick}; shift
IDS=${@:-$(ls props/c[0-9][0-9].py | sed 's/.*c\(..\).py/C\1/')}
for i in $IDS; do
  s=$(date +%s)
  VERIF_TIER=$T timeout 900 python3-vt run_check.py $i --tier $T > /tmp/all.$T.$i.log 2>&1
  echo "$i exit $? $(( $(date +%s) - s ))s left $(grep -o 'left [0-9]* incomplete [0-9]*' /tmp/all.$T.$i.log | awk '{l+=$2;n+=$4}END{print l, "incomplete", n}')"
done
