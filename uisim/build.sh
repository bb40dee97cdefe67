#!/bin/bash
# Build the application simulator from /repo's current working tree (decided by content).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=${CAVSIM_TOOLCHAIN:-1.85.0} RUSTC_WRAPPER="$here/rustc-wrap.sh"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
mkdir -p target
exec 9>target/.build-lock
flock 9
sum=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.source-sum 2>/dev/null)" != "$sum" ]; then
  cargo clean --release --offline -p cavalier_contours -p cavalier_contours_ui -p static_aabb2d_index -p cavsim-ui >/dev/null 2>&1
  cargo build --release --offline "$@" || exit 2
  echo "$sum" > target/.source-sum
else
  cargo build --release --offline "$@" || exit 2
fi
