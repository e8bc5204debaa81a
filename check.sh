#!/bin/bash
# check.sh <property> [--replay <file>]
. "$(dirname "$0")/lib.sh"
cd "$HERE" || exit 2
ID=$1; shift
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
export MC_KNOWN=$HERE/known-findings.txt
mkdir -p "$B/replay" evidence
exec 9> "$B/lock"; flock 9
make -s -C harness -j8 OUT="$B" || fail "harness does not build"
build_fmus fmu "-w -O2 -g"
case $ID in C19|C25|C26|C27|C28) build_importer ;; esac
[ "$ID" != C39 ] || build_sources
[ "$ID" != C41 ] || build_linked
if [ "$ID" = C17 ]; then
    # calls a function of the harness before each access to memory
    build_fmus fmu-preempt "-w -O2 -g -fsanitize=thread" Clocks "-fno-sanitize=thread"
fi
if [ "$ID" = C20 ] && [ $# = 0 ]; then
    # first part: the same histories with the address and undefined-behaviour sanitizers
    make -s -C harness -j8 OUT="$B/sanitize-mc" EXTRA="-DMC_ASAN -fsanitize=address" || fail "harness does not build with sanitizers"
    build_fmus sanitize "-w -O2 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
    export MC_LIMIT=370 MC_ASAN_STATS=$B/sanitize-mc/stats
    rm -f "$B/sanitize-mc/stats"
    ASAN_OPTIONS=abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0 UBSAN_OPTIONS=abort_on_error=1 \
        "$B/sanitize-mc/mc" C20 "$B/sanitize" evidence/C20.json "$B/replay"
    rc=$?
    [ $rc = 1 ] && exit 1
    [ $rc = 0 ] || fail "check $ID ended with status $rc in the sanitizer part"
fi
"$B/mc" "$ID" "$B/fmu" "evidence/$ID.json" "$B/replay" "$@"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || fail "check $ID ended with status $rc"
exit $rc
