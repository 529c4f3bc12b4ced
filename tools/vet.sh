#!/bin/bash
# vet.sh ID [check-only]: try the planted bug seeded/ID in a private copy of
# /repo: it applies, builds, passes the stable tests, its demonstration fails
# with it and passes without it, and the property's check reports it.
# Needs copies made before: /tmp/wt (of /repo) and /tmp/vt (of sim/target).
ID=$1; MODE=$2
S=/verif/seeded/$ID
[ -d /tmp/wt ] || { mkdir -p /tmp/wt; cp -a /repo/. /tmp/wt/; }
[ -d /tmp/vt ] || { mkdir -p /tmp/vt; cp -a /verif/sim/target/. /tmp/vt/; }
exec unshare -Urm bash -c '
ID=$1; MODE=$2; S=$3
mount --bind /tmp/wt /repo; mount --bind /tmp/vt /verif/sim/target
cd /repo
git checkout -q -- .
P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
if [ "$MODE" != check ]; then
  timeout 300 bash $S/demo.sh >/tmp/vet-demo0.log 2>&1; echo "demo on clean: $?"
fi
git apply $S/patch.diff || exit 9
find src -newer /tmp/vet-stamp 2>/dev/null | head -0
if [ "$MODE" != check ]; then
  timeout 300 bash $S/demo.sh >/tmp/vet-demo1.log 2>&1; echo "demo with bug: $?"
  tail -2 /tmp/vet-demo1.log
fi
if [ -z "$MODE" ]; then /verif/tools/tests.sh 2>&1 | tail -12; fi
cd /verif; /usr/bin/time -f "%e s" ./check.sh $P 2>&1 | tail -4 | cut -c1-500
cd /repo; git checkout -q -- .; touch src/*.rs src/*/*.rs
' vet $ID "$MODE" $S
