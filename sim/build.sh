#!/bin/bash
# Build the simulator from /repo's current working tree (decided by content, not by time stamps).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=${CAVSIM_TOOLCHAIN:-1.85.0} RUSTC_WRAPPER="$here/rustc-wrap.sh"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target
exec 9>target/.build-lock
flock 9
sum=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
# with debug assertions and overflow checks, and as shipped
build() {
  if [ "$(cat target/.source-sum.$1 2>/dev/null)" != "$sum" ]; then
    cargo clean --profile $1 --offline -p cavalier_contours -p cavalier_contours_ffi -p static_aabb2d_index -p glue -p cavsim >/dev/null 2>&1
  fi
  cargo build --profile $1 --offline || return 2
  echo "$sum" > target/.source-sum.$1
}
build ship & other=$!
build release; one=$?
wait $other || exit 2
exit $one
