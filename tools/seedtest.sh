#!/bin/bash
# seedtest.sh ID [nocheck]: qualify the planted bug /verif/seeded/ID in a scratch copy of /repo, then
# (unless nocheck) run its property's quick check against it in /repo and undo it.
id=$1; s=/verif/seeded/$id; w=/tmp/seedw
[ -d $w ] || cp -a /repo $w
cd $w || exit 1
git -C $w fetch -q /repo HEAD && git -C $w checkout -q -f FETCH_HEAD
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$w/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
bld(){ find $w/src -name '*.rs' -newer $w/.stamp -exec true \; ; touch $(git -C $w apply --numstat $s/patch.diff | cut -f3); cargo test --workspace --no-run --offline --locked >/tmp/seed.log 2>&1 && CARGO_PROFILE_DEV_PANIC=unwind cargo build --workspace --offline --locked >>/tmp/seed.log 2>&1; }
demo(){ ( cd $w; export CARGO_TARGET_DIR=/repo/none; unset CARGO_TARGET_DIR; timeout 300 bash $s/demo.sh >/tmp/seed.demo.$1 2>&1 ); echo $?; }
touch $w/.stamp
git -C $w apply --check $s/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
bld || { tail -20 /tmp/seed.log; echo "$id: clean build fails"; exit 1; }
c=$(demo clean)
git -C $w apply $s/patch.diff
bld || { grep -A8 ^error /tmp/seed.log|head -30; echo "$id: patched build fails"; git -C $w checkout -q -- .; exit 1; }
cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 >/tmp/seed.test 2>&1; t=$?
p=$(demo patched)
git -C $w checkout -q -- .
echo "$id ($prop): demo clean=$c patched=$p tests=$t"
[ "$c" = 0 ] || tail -5 /tmp/seed.demo.clean
[ $t = 0 ] || grep -E "^test .*FAILED" /tmp/seed.test
[ "$2" = nocheck ] && exit 0
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply $s/patch.diff
VERIF_SEED=1 timeout 900 /verif/check.sh $prop quick >/tmp/seed.check 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$id check exit=$r $(grep -m1 VIOLATION /tmp/seed.check)"; tail -3 /tmp/seed.check | cut -c1-300
