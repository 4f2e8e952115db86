#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and replay one recorded run.
# exit 1 and a VIOLATION line if it still fails, 0 if it does not.
f=$(realpath -- "$1") || exit 2
cd "$(dirname "$0")" || exit 2
kind=$(sed -n 's/^build //p' "$f")
bin=$(sim/build.sh "${kind:-plain}" 2>/dev/null) || exit 2
DST_ROOT=$PWD exec "$bin" replay "$f"
