#!/bin/bash
# seed.sh ID [check-args...]: builds a patched scratch copy, runs the demo on it and on the clean tree, then the property's check
id=$1; shift
S=/verif/seeded/$id
B=/tmp/seed-base; M=/tmp/seed-$id
if [ ! -d $B ] || [ "$(git -C ${SRC:-/repo} rev-parse HEAD)" != "$(git -C $B rev-parse HEAD)" ]; then
  rm -rf "$B"; cp -a ${SRC:-/repo} $B; git -C $B checkout -q -- .; (cd $B/ircd && make -j8 CC=gcc >/tmp/seed-base.log 2>&1) || { echo BASE BUILD FAILED; exit 1; }
fi
rm -rf "$M"; cp -a $B $M
git -C $M apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; rm -rf "$M"; exit 1; }
(cd $M/ircd && make -j8 CC=gcc >/tmp/seed-$id.log 2>&1) || { echo BUILD FAILED; tail /tmp/seed-$id.log; rm -rf "$M"; exit 1; }
(cd $B && timeout 280 bash $S/demo.sh >/tmp/seed-$id.base 2>&1); r0=$?
(cd $M && timeout 280 bash $S/demo.sh >/tmp/seed-$id.mut 2>&1); r1=$?
echo "$id demo: clean=$r0 patched=$r1"
[ $r0 = 0 ] || tail -15 /tmp/seed-$id.base
[ $r1 != 0 ] || tail -15 /tmp/seed-$id.mut
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$NOCHECK" = "" ]; then
  (cd /verif && IRCSIM_REPO=$M timeout 900 python3 check.py $p quick "$@" > /tmp/seed-$id.chk 2>/tmp/seed-$id.err); echo "$id check $p rc=$?"; tail -3 /tmp/seed-$id.chk | cut -c1-600
fi
rm -rf "$M"
