#!/bin/bash
# usage: build.sh REPO OUTDIR  -- builds the harness against REPO's C sources
set -e
REPO=$1; OUT=$2; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CC=${VT_CC:-clang}; CXX=${VT_CXX:-clang++}
SAN=${VT_SAN:--fsanitize=address,undefined -fno-sanitize-recover=all}
CF="-O1 -g -fno-omit-frame-pointer $SAN -w -I$REPO/c -I$REPO/c/heatshrink -I$HERE"
# What a guided campaign watches: the library only.
COV=${VT_GUIDED:+-fsanitize-coverage=inline-8bit-counters,trace-cmp}
jobs=()
variant() { # name none lzma crle heatshrink dynamic fileio
  local f="$CF $COV -std=gnu99 -DV=$1 -DVNAME=\"$1\" -DDETOOLS_CONFIG_COMPRESSION_NONE=$2 -DDETOOLS_CONFIG_COMPRESSION_LZMA=$3"
  f="$f -DDETOOLS_CONFIG_COMPRESSION_CRLE=$4 -DDETOOLS_CONFIG_COMPRESSION_HEATSHRINK=$5 -DHEATSHRINK_DYNAMIC_ALLOC=$6"
  f="$f -DDETOOLS_CONFIG_FILE_IO=$7"
  ( $CC $f -c "$HERE/variant.c" -o "$OUT/v_$1.o"; $CC $f -c "$HERE/hs.c" -o "$OUT/h_$1.o" ) &
  jobs+=($!)
  names+=($1)
}
names=()
variant static 1 1 1 1 0 1
variant dynamic 1 1 1 1 1 1
if [ -z "$VT_FEW" ]; then
for n in 0 1; do for l in 0 1; do for c in 0 1; do for h in 0 1; do
  [ $n$l$c$h = 0000 ] && continue
  [ $n$l$c$h = 1111 ] && continue
  variant cfg_$n$l$c$h $n $l $c $h 0 $((n ^ c))
done; done; done; done
variant dyn_0001 0 0 0 1 1 0
variant nofile 1 1 1 1 0 0
fi
{
  echo '#include "api.h"'
  for n in "${names[@]}"; do echo "extern const struct vt g_vt_$n;"; done
  echo 'const struct vt *const g_vts[] = {'
  for n in "${names[@]}"; do echo "  &g_vt_$n,"; done
  echo '};'
  echo "const size_t g_nvts = ${#names[@]};"
} > "$OUT/vts.c"
$CC $CF -c "$OUT/vts.c" -o "$OUT/vts.o" & jobs+=($!)
$CC $CF -c "$HERE/alloc.c" -o "$OUT/alloc.o" & jobs+=($!)
$CXX $CF -std=c++17 $VT_ENGINE_FLAGS -c "$HERE/engine.cpp" -o "$OUT/engine.o" & jobs+=($!)
$CXX $CF -std=c++17 -c "$HERE/gen.cpp" -o "$OUT/gen.o" & jobs+=($!)
$CXX $CF -std=c++17 -c "$HERE/props.cpp" -o "$OUT/props.o" & jobs+=($!)
( gcc -O1 -g -w -std=c99 -I$REPO/c -I$REPO/c/heatshrink -fsanitize=address,undefined -fno-sanitize-recover=all \
    "$REPO/c/main.c" "$REPO/c/detools.c" "$REPO/c/heatshrink/heatshrink_decoder.c" -llzma -o "$OUT/detools-cli" ) & jobs+=($!)
for j in "${jobs[@]}"; do wait $j; done
# What a configuration has besides its table is its own, also names of the
# library that are not known here.
for n in "${names[@]}"; do
  ld -r "$OUT/v_$n.o" "$OUT/h_$n.o" -o "$OUT/c_$n.o"
  objcopy --keep-global-symbol=g_vt_$n "$OUT/c_$n.o"
done
$CXX $SAN -o "$OUT/harness" "$OUT"/c_*.o "$OUT/vts.o" "$OUT/alloc.o" "$OUT/engine.o" "$OUT/gen.o" "$OUT/props.o" -llzma
