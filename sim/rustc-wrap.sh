#!/bin/bash
# RUSTC_WRAPPER: compile the code under test (and the thin glue that instantiates its generics) with
# a callback at every control-flow edge.  The callbacks are the simulator's preemption points, its
# work counter and its reach measure; nothing else of the build changes.
# (thin-local LTO between codegen units drops instrumented functions that are still referred to)
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      cavalier_contours|cavalier_contours_ffi|static_aabb2d_index|glue)
        exec "$rustc" "$@" -Clto=off -Cpasses=sancov-module \
          -Cllvm-args=-sanitizer-coverage-level=3 \
          -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
    break
  fi
  prev="$a"
done
exec "$rustc" "$@"
