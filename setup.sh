#!/bin/bash
# Build everything the checks use, from the committed files, offline.
here=$(cd "$(dirname "$0")" && pwd)
"$here/sim/build.sh" || exit 1
"$here/uisim/build.sh" || exit 1
