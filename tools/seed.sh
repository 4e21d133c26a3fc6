#!/bin/bash
# seed.sh <id>: confirm a planted bug in a scratch copy of /repo (builds, tests pass, demo 0 before / nonzero after)
id=$1; d=/verif/seeded/$id; w=/tmp/seedwork
[ -d $w ] || { cp -a /repo $w; }
cd $w && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
bash $d/demo.sh >/tmp/seed.o 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
cargo test --workspace --offline --locked --no-fail-fast >/tmp/seed.t 2>&1; t=$?
f=$(grep -c '^test .*FAILED' /tmp/seed.t); n=$(grep -c '^test .* ok$' /tmp/seed.t)
bash $d/demo.sh >/tmp/seed.o2 2>&1; b=$?
git checkout -q -- .
echo "$id: demo clean=$a patched=$b tests rc=$t ok=$n failed=$f"; [ $a != 0 ] && tail -5 /tmp/seed.o; grep '^test .*FAILED' /tmp/seed.t | head -5; grep -E '^error' /tmp/seed.t | head
tail -2 /tmp/seed.o2
