#!/bin/bash
# trybug.sh <id>: confirm a planted bug in a scratch copy of /repo (/tmp/seed/repo): the patch applies, builds,
# passes the tests, and its demonstration fails with it and passes without it.
id="$1"; dir=/verif/seeded/$id; cd /tmp/seed/repo || exit 1
export RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash "$dir/demo.sh" >/tmp/seed/$id.clean 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 1; }
cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/seed/$id.test 2>&1; t=$?
n=$(grep -c "^test .* ok$" /tmp/seed/$id.test)
bash "$dir/demo.sh" >/tmp/seed/$id.bug 2>&1; b=$?
git checkout -q -- .
echo "$id: tests rc=$t ok=$n demo clean=$a bug=$b $([ $t = 0 ] && [ $a = 0 ] && [ $b != 0 ] && echo GOOD || echo BAD) :: $(tail -1 /tmp/seed/$id.bug | cut -c1-200)"
