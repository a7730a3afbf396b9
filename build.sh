#!/bin/bash
# Builds the simulator against /repo's current working tree.
# usage: build.sh FLAVOUR   (p: step-counted build, u: the same with the stack left as it is, t: thread-scheduled build, a: address-sanitised build)
# prints the path of the built simulator.  Output is keyed by a hash of all inputs.
set -e
FL=${1:-p}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export LANG=C.UTF-8 LC_ALL=C.UTF-8
KEY=$( { echo "$FL"; cat "$HERE/build.sh"; for f in "$HERE"/sim/*.cc "$HERE"/sim/*.h "$REPO"/lttoolbox/*.cc "$REPO"/lttoolbox/*.h "$REPO"/lttoolbox/*.hpp "$REPO"/CMakeLists.txt; do echo "$f"; cat "$f"; done; } | sha256sum | cut -c1-20)
B="$HERE/build/$FL-$KEY"
if [ -f "$B/done" ]; then echo "$B/simlt"; exit 0; fi
exec 9>"$HERE/.build.lock"; flock 9
if [ -f "$B/done" ]; then echo "$B/simlt"; exit 0; fi
# keep at most a few old builds of this flavour
ls -1dt "$HERE"/build/$FL-* 2>/dev/null | tail -n +3 | while read -r d; do rm -rf "$d"; done
mkdir -p "$B/o" "$B/tools"
VER=$(sed -n 's/^[[:space:]]*VERSION \([0-9.]*\)$/\1/p' "$REPO/CMakeLists.txt" | head -1)
CXX=clang++
echo "#define PACKAGE_VERSION \"${VER:-3.8.4}\"" > "$B/ver.h"
DEFS="-include $B/ver.h -D_POSIX_C_SOURCE=200112 -D_GNU_SOURCE -DHAVE_DECL_FREAD_UNLOCKED -DHAVE_DECL_FWRITE_UNLOCKED -DHAVE_DECL_FGETC_UNLOCKED -DHAVE_DECL_FPUTC_UNLOCKED -DHAVE_DECL_FPUTS_UNLOCKED -DHAVE_DECL_FMEMOPEN -DHAVE_GETOPT_LONG -DLTTOOLBOX_VERIF_SIM"
INC="-I$REPO -I$REPO/lttoolbox -I/usr/include/libxml2 -I/usr/include/utf8cpp"
STD=-std=c++23
COMMON="$STD -O1 -g1 -fPIC -w -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern $DEFS $INC"
case $FL in
 u) COMMON="${COMMON/-ftrivial-auto-var-init=pattern/}"; LTF="-fsanitize-coverage=trace-pc-guard"; HF="-DSIM_GUARD -DSIM_STACK"; LF="";;
 p) LTF="-fsanitize-coverage=trace-pc-guard"; HF="-DSIM_GUARD"; LF="";;
 t) LTF="-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"; HF="-DSIM_TSAN"; LF="";;
 a) LTF="-D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined -fsanitize-coverage=trace-pc-guard"; HF="-DSIM_GUARD -DSIM_ASAN -fsanitize=address"; LF="-fsanitize=address,undefined";;
esac
{
 echo "ninja_required_version = 1.3"
 echo "rule lt"; echo "  command = $CXX $COMMON $LTF -MMD -MF \$out.d -c \$in -o \$out"; echo "  depfile = \$out.d"
 echo "rule hs"; echo "  command = $CXX $STD -O1 -g1 -fPIC -w $HF $DEFS $INC -I$HERE/sim -c \$in -o \$out"
 echo "rule lh"; echo "  command = $CXX $COMMON $LTF $HF -I$HERE/sim -c \$in -o \$out"
 echo "rule so"; echo "  command = $CXX -shared -Wl,-Bsymbolic \$in -o \$out"
 echo "rule exe"; echo "  command = $CXX -rdynamic \$in -o \$out $LF -lxml2 -licuio -licui18n -licuuc -ldl -lpthread"
 LIBO=""; TOOLS=""
 for f in "$REPO"/lttoolbox/*.cc; do
  n=$(basename "$f" .cc)
  case $n in
   check-cstdint) continue;;
   lt_locale) ;;
   lt_*) if grep -qE '^[[:space:]]*(int[[:space:]]+)?main[[:space:]]*\(|int main' "$f"; then echo "build $B/o/$n.o: lt $f"; echo "build $B/tools/$n.so: so $B/o/$n.o"; TOOLS="$TOOLS $B/tools/$n.so"; continue; fi;;
  esac
  echo "build $B/o/$n.o: lt $f"; LIBO="$LIBO $B/o/$n.o"
 done
 HO=""
 for f in "$HERE"/sim/*.cc; do n=$(basename "$f" .cc); case $n in api*) r=lh;; *) r=hs;; esac; echo "build $B/o/sim_$n.o: $r $f"; HO="$HO $B/o/sim_$n.o"; done
 # library objects first: the linker then keeps the instrumented copy of every shared template
 echo "build $B/simlt: exe $LIBO $HO"
 echo "build all: phony $B/simlt $TOOLS"
 echo "default all"
} > "$B/build.ninja"
if ! ninja -C "$B" -j8 > "$B/build.log" 2>&1; then grep -E "error:|undefined|FAILED" "$B/build.log" | cut -c1-300 | head -20 >&2; echo "build of the simulator failed" >&2; exit 3; fi
rm -rf "$B/o"
touch "$B/done"
echo "$B/simlt"
