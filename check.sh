#!/bin/bash
# check.sh <ID>: rebuild from /repo's working tree and decide one property.
# VERIF_SEED and VERIF_TIER (quick|thorough) come from the environment.
# exit 0 held, 1 violated (VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
id=$1
export DST_ROOT=$PWD

build() { # kind -> path of the binary in $bin
    local log
    log=$(mktemp)
    bin=$(sim/build.sh "$1" 2>"$log")
    if [ -z "$bin" ] || [ ! -x "$bin" ]; then
        cat "$log"
        rm -f -- "$log"
        echo "check $id: the build failed"
        exit 2
    fi
    rm -f -- "$log"
}

case $id in
C04)
    # once with the library as written, then with the library as optimised
    [ "${VERIF_TIER:-quick}" = thorough ] && export DST_CAP=380 || export DST_CAP=240
    build asis
    DST_BUILD=asis "$bin" check "$id" || exit $?
    first=$(mktemp)
    mv -f -- evidence/C04.json "$first"
    build opt
    DST_BUILD=opt DST_INCLUDE=$first "$bin" check "$id"
    code=$?
    rm -f -- "$first"
    exit $code
    ;;
C11)
    build instr
    DST_BUILD=instr exec "$bin" check "$id"
    ;;
*)
    build plain
    DST_BUILD=plain exec "$bin" check "$id"
    ;;
esac
