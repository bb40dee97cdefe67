#!/bin/bash
# run.sh <property> [thorough]: rebuild from /repo's working tree and decide the property.
# run.sh replay <file>: execute a replay file again.
here=$(cd "$(dirname "$0")" && pwd)
export CAVSIM_VERIF="$here"
prop="$1"
[ "$1" = replay ] && prop=$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | grep -o 'C[0-9]*')
case "$prop" in
  C11|C12|C13) dir="$here/uisim"; bin="$dir/target/release/cavsim-ui" ;;
  *) dir="$here/sim"; bin="$dir/target/release/cavsim" ;;
esac
log="$dir/target/build.log"
mkdir -p "$dir/target"
if ! "$dir/build.sh" >"$log" 2>&1; then
  echo "ERROR the simulator does not build against /repo:"
  grep -E "^error" -A 12 "$log" | head -60
  exit 2
fi
if [ "$1" = replay ]; then
  exec "$bin" replay "$2"
fi
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec "$bin" check "$1"
