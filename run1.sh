#!/bin/bash
# developer helper: run1.sh <entry> [symex options]; the feature is the part before '_'; NB=1 skips the build
e=$1; shift
f=${e%%_*}
[ -z "$NB" ] && { bash /verif/build.sh $f /verif/build/$f 2>&1 | grep -A12 -E "^error" && exit 1; }
O=/tmp/o_$e; rm -rf $O; mkdir -p $O
/usr/bin/time -f "%es %MKB" /verif/build/engine/symex --entry $e --out $O --jobs 8 --max-time ${MT:-600} "$@" /verif/build/$f/harness.bc
echo "$e rc=$?"
cat $O/worker*.txt | grep '^stat' | awk '{s[$2]+=$3} END {for (k in s) printf "%s=%d ", k, s[k]; print ""}'
cat $O/worker*.txt | grep '^cover' | sort | uniq -c | awk '{$1="";printf "%s;",$0} END{print ""}'
cat $O/{viol,err}*.txt 2>/dev/null | cut -c1-500 | head -${LINES_:-14}
mkdir -p /tmp/nat; n=0; bad=0
for s in $O/sample-*.replay; do [ -e $s ] || continue; (cd /tmp/nat && rm -rf /tmp/nat/* && timeout 20 /verif/build/$f/harness $e $s $O/obs.txt 2>$O/err.log) ; n=$((n+1)); diff -q <(grep -E '^[oe]' $s) $O/obs.txt >/dev/null || { bad=$((bad+1)); echo "MISMATCH $s"; }; done; echo "samples $n bad $bad"
for s in $O/violation-*.replay $O/error-*.replay; do [ -e $s ] || continue; (cd /tmp/nat && rm -rf /tmp/nat/* && timeout 20 /verif/build/$f/harness $e $s $O/obs.txt 2>$O/err.log); echo "native rc=$?"; head -2 $O/err.log; [ -n "$SHOW" ] && cat $s; break; done
