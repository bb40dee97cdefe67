#!/bin/bash
# RUSTC_WRAPPER: the repository's crates report every control-flow edge they reach, and the
# application is compiled with its simulation hooks.
# (thin-local LTO between codegen units drops instrumented functions that are still referred to)
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      cavalier_contours|static_aabb2d_index|cavalier_contours_ui)
        exec "$rustc" "$@" --cfg cavc_sim -Clto=off -Cpasses=sancov-module \
          -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
