#!/bin/bash
# seedtest.sh <id> [full] : judge a planted bug in a scratch copy of /repo mounted over /repo in a private namespace.
# full: also run the repository's tests. Then runs the check of the bug's property (and CHECKS, if set).
id=$1; full=$2
S=/tmp/seed-$id
if [ -z "$IN_NS" ]; then
  mkdir -p $S
  cp -a /repo $S/repo; mkdir -p $S/verif; cp -a ${V:-/verif}/. $S/verif/
  IN_NS=1 unshare -m bash "$0" "$@"
  rc=$?
  rm -rf "/tmp/seed-$id"
  exit $rc
fi
mount --bind $S/repo /repo; mount --bind $S/verif /verif
d=/verif/seeded/$id
cd /repo || exit 2
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash $d/demo.sh >$S/d0 2>&1; a=$?
git apply $d/patch.diff || { echo "$id PATCH-FAILS"; exit 2; }
bash /opt/vp/build.sh >$S/b 2>&1 || { echo "$id BUILD-FAILS"; grep -A8 '^error' $S/b | head -30; exit 2; }
bash $d/demo.sh >$S/d1 2>&1; b=$?
t=skipped
if [ "$full" = full ]; then
  bash /opt/vp/test.sh $S/out.json >$S/t 2>&1
  t=$(python3 -c "import json;o=json.load(open('$S/out.json'));print(len(o['passed']),o['failed'][:5])")
fi
echo "$id property=$p demo-clean=$a demo-patched=$b tests=$t"
[ "$a" = 0 ] || tail -5 $S/d0
[ "$b" = 0 ] && tail -5 $S/d1
for c in $p $CHECKS; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $c >$S/c 2>&1; rc=$?
  echo "$id check=$c exit=$rc $(grep -c '^VIOLATION' $S/c) violations"; grep '^VIOLATION\|^BUILD-ERR' -A1 $S/c | cut -c1-220 | head -${W:-4}
done
