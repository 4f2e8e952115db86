#!/bin/bash
# cargo RUSTC_WRAPPER: turns the simulation hook on in the library and, for the instrumented
# build, inserts a yield point at every basic block, load and store of the library.
rustc=$1
shift
extra=()
case " $* " in
*" --crate-name safecurves_rust "* | *" --crate-name surface "*)
    extra+=(--cfg safecurves_sim --cap-lints allow)
    if [ "${DST_INSTR:-0}" = 1 ]; then
        extra+=(-Cpasses=sancov-module
            -Cllvm-args=-sanitizer-coverage-level=3
            -Cllvm-args=-sanitizer-coverage-trace-pc-guard
            -Cllvm-args=-sanitizer-coverage-prune-blocks=${DST_PRUNE:-0}
            -Cllvm-args=-sanitizer-coverage-trace-loads=1
            -Cllvm-args=-sanitizer-coverage-trace-stores=1)
        # copies of memory and, where the simulator schedules threads, atomic operations
        export RUSTC_BOOTSTRAP=1
        extra+=(-Zsanitizer=thread
            -Cllvm-args=-tsan-instrument-memory-accesses=0
            -Cllvm-args=-tsan-instrument-func-entry-exit=0
            -Cllvm-args=-tsan-handle-cxx-exceptions=0
            -Cllvm-args=-tsan-instrument-atomics="${DST_PRUNE:-0}")
    fi
    ;;
esac
if [ "${DST_INSTR:-0}" = 1 ]; then
    extra+=(-Cunsafe-allow-abi-mismatch=sanitizer)
fi
exec "$rustc" "$@" "${extra[@]}"
