#!/bin/bash
# check.sh ID [case]: rebuilds the tool from /repo and decides one property.
cd "$(dirname "$0")" || exit 2
export MON_VERIF=$(pwd)
./build.sh || exit 2
export MON_CLI=${MON_CLI:-$MON_VERIF/build/cli/release/midi2spc}
exec ./harness/target/release/mon check "$@"
