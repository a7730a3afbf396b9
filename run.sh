#!/bin/bash
# run.sh check ID [simlt options]   run one property's check (VERIF_SEED, VERIF_TIER)
# run.sh replay FILE                replay a recorded violation
# run.sh survey|one|min ID ...      development aids
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 2
flavour() { case $1 in C07) echo a;; C16) echo u;; C12|C13|C14) echo t;; *) echo p;; esac; }
cmd=$1; shift
case $cmd in
 check|survey|one|min) id=$1; fl=$(flavour "$id");;
 replay) id=$(sed -n 's/^property //p' "$1" | head -1); fl=$(flavour "$id");;
 build) for f in ${*:-p u t a}; do bash "$HERE/build.sh" $f >/dev/null || exit 3; done; exit 0;;
 *) echo "usage: run.sh check ID | replay FILE" >&2; exit 2;;
esac
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=5:log_path=/dev/null UBSAN_OPTIONS=print_stacktrace=0:halt_on_error=1:exitcode=77:log_path=/dev/null
S=$(bash "$HERE/build.sh" $fl) || { echo "ERROR: the simulator does not build against /repo" ; exit 3; }
if setarch -R true 2>/dev/null; then exec setarch -R "$S" "$cmd" "$@"; else exec "$S" "$cmd" "$@"; fi
