#!/bin/bash
# usage: seedtest.sh SEED [CHECK...]: in a mount namespace of its own, with copies of /repo and /verif,
# builds and tests the planted bug, runs its demo with and without it and the checks against it
id=$1; shift
[ -n "$IN_NS" ] || exec env IN_NS=1 unshare -m bash "$0" "$id" "$@"
w=/tmp/seedrun/$id; rm -rf "/tmp/seedrun/$id"; mkdir -p "$w/tmp"
cp -a /repo "$w/repo"; (cd /verif && mkdir "$w/verif" && cp -a .gitignore conc gen known_findings.txt mc parity work run.sh properties.jsonl MANIFEST.json "$w/verif"); cp -a "/verif/seeded/$id" "$w/seed"
mkdir "$w/logs"; cp -a /opt/vp "$w/vp"
mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif && mount --bind "$w/vp" /opt/vp || exit 9
export TMPDIR=$w/tmp
cd /repo
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh > $w/b0 2>&1 || echo "$id: clean build fails"
bash "$w/seed/demo.sh" > $w/d0 2>&1; echo "$id: demo clean $?"
fi
git apply "$w/seed/patch.diff" || { echo "$id: does not apply"; exit 1; }
if [ -z "$SKIPBUILD" ]; then
bash /opt/vp/build.sh > $w/b1 2>&1 || echo "$id: patched build fails"
bash /opt/vp/test.sh $w/t.json > $w/t1 2>&1
echo "$id: $(grep -h 'test result' $w/t1 | awk '{p+=$4;f+=$6}END{print p" passed "f" failed"}')"
bash "$w/seed/demo.sh" > $w/d1 2>&1; echo "$id: demo patched $?"
fi
cd /verif
for c in "$@"; do
  s=$(date +%s); bash run.sh $c > $w/c.$c 2>&1; rc=$?
  echo "$id: $c rc=$rc $(grep -c "^VIOLATION property=$c" $w/c.$c) $(( $(date +%s)-s ))s $(grep "^$c: " $w/c.$c | head -1 | cut -c1-160)"
done
cd /; [ -n "$KEEP" ] || rm -rf "/tmp/seedrun/$id/repo" "/tmp/seedrun/$id/verif" "/tmp/seedrun/$id/vp" "/tmp/seedrun/$id/tmp" 2>/dev/null
