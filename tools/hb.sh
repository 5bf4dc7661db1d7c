#!/bin/bash
# hb.sh src args... : build+run all shards
src=$1; shift
FL=${FL:--O2}
g++ -std=${STD:-c++20} $FL -fext-numeric-literals -g0 -w -I${INC:-/repo/include} -I/verif/h /verif/h/$src -o /tmp/hb.$$ ${LIBS} 2>&1 | grep -E "error|undefined" | head -${N:-10}
[ -x /tmp/hb.$$ ] || exit 1
s=$(date +%s.%N)
for i in 0 1 2 3 4 5 6 7; do /tmp/hb.$$ --shard $i/8 --tier ${TIER:-quick} "$@" > /tmp/hb.$$.$i 2>&1 & done; wait
e=$(date +%s.%N)
cat /tmp/hb.$$.? | grep -vE "^(STAT|SAMPLE)" | cut -c1-300 | head -${N:-20}
cat /tmp/hb.$$.? | grep -c ^FAIL
cat /tmp/hb.$$.? | grep -c ^STAT
python3 - $$ <<'P'
import sys,json,glob
s=t=0
for f in glob.glob('/tmp/hb.%s.?'%sys.argv[1]):
    for l in open(f,errors='replace'):
        if l.startswith('STAT\t'):
            j=json.loads(l[5:]); s+=j['states']; t+=j['transitions']
print('states',s,'trans',t)
P
echo "time $(echo "$e - $s" | bc)"
/bin/rm -f /tmp/hb.$$ /tmp/hb.$$.?
