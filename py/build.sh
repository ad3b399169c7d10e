#!/bin/bash
# usage: build.sh REPO OUTDIR -- copies REPO's Python package to OUTDIR/pkg and
# builds the extension modules and the C library into OUTDIR.
set -e
REPO=$1; OUT=$2
PYINC=${PYINC:-/usr/include/python3.12}
mkdir -p "$OUT/pkg"
rm -rf "$OUT/pkg/detools"
cp -r "$REPO/detools" "$OUT/pkg/detools"
find "$OUT/pkg/detools" \( -name '*.so' -o -name '__pycache__' \) -prune -exec rm -rf {} +
rm -rf "$OUT/pkg/detools/HDiffPatch"
# The HDiffPatch submodule is not part of this tree. The check of P20 puts a
# model of it in place of this.
cat > "$OUT/pkg/detools/hdiffpatch.py" <<'P'
MODEL = None
def create_patch(*args):
    if MODEL is None: raise NotImplementedError('hdiffpatch')
    return MODEL.create_patch(*args)
def apply_patch(*args):
    if MODEL is None: raise NotImplementedError('hdiffpatch')
    return MODEL.apply_patch(*args)
P
FLAGS=${VT_PYFLAGS:--O2}
OOM=
[ -n "$VT_OOM" ] && OOM="$(dirname "$0")/oom.c -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
FILES=
[ -n "$VT_OOM" ] && FILES="-DVT_FILES -x c $OOM -x none -Wl,--wrap=tmpfile,--wrap=tmpfile64,--wrap=fseek,--wrap=fread"
D=$REPO/detools
( gcc $FLAGS -g -fPIC -shared -w -I$PYINC "$D/bsdiff.c" $OOM -o "$OUT/pkg/detools/bsdiff.so" ) & a=$!
( gcc $FLAGS -g -fPIC -shared -w -I$PYINC "$D/suffix_array.c" "$D/sais/sais.c" "$D/libdivsufsort/divsufsort.c" $OOM -o "$OUT/pkg/detools/suffix_array.so" ) & b=$!
( gcc -O2 -g -fPIC -shared -w -std=gnu99 -I$REPO/c -I$REPO/c/heatshrink "$REPO/c/detools.c" "$REPO/c/heatshrink/heatshrink_decoder.c" -llzma -Wl,-Bsymbolic -o "$OUT/libdetools.so" ) & c=$!
( gcc -O2 -g -fPIC -shared -w -std=gnu99 -DHEATSHRINK_DYNAMIC_ALLOC=1 -I$REPO/c -I$REPO/c/heatshrink "$REPO/c/detools.c" "$REPO/c/heatshrink/heatshrink_decoder.c" -llzma -Wl,-Bsymbolic -o "$OUT/libdetools-dynamic.so" ) & d=$!
if [ -n "$VT_HDP" ]; then
    # The wrapper of the library, with the model of the library. What does not
    # compile with the model is left to the model in Python.
    mkdir -p "$OUT/hdp"
    g++ ${VT_PYFLAGS:--O1} -g -fPIC -shared -w -I"$(dirname "$0")/hdp" -I$PYINC "$D/hdiffpatch.cpp" $FILES -o "$OUT/hdp/hdiffpatch.so" || true
fi
wait $a; wait $b; wait $c; wait $d
