#!/bin/bash
# short summary of a check: ck.sh C12 [more args]
cd /verif
python3-vt run_check.py "$@" > /tmp/ck.$1.log 2>&1
echo "exit $?"
grep "^$1 " /tmp/ck.$1.log | awk '{for(i=1;i<=NF;i++){if($i=="paths")p+=$(i+1);if($i=="left"){l+=$(i+1);if($(i+1)>0)n++};if($i=="incomplete")q+=$(i+1)}}END{print "paths",p,"left",l,"in",n+0,"cases; incomplete",q}'
grep "^$1 " /tmp/ck.$1.log | grep -v "left 0 incomplete 0" | cut -c1-220 | head -5
grep -v "^$1 " /tmp/ck.$1.log | cut -c1-900 | head -${LINES_MAX:-12}
grep "^$1 " /tmp/ck.$1.log | sed 's/.* time \([0-9.]*\)s.*/\1 &/' | sort -rn | head -3 | cut -c1-140
