#!/bin/bash
# build.sh FLAVOR NAME SRC...: builds the library from /repo's working tree and a driver from /verif/h.
# FLAVOR: asan (clang ASan+UBSan), tsan (clang TSan), plain (g++, for valgrind)
# An object is reused when a hash of the preprocessed-relevant inputs (all headers + the source) is unchanged.
set -u
FLAVOR=$1; NAME=$2; shift 2
V=$(cd "$(dirname "$0")" && pwd)
R=${RTMFP_REPO:-/repo}
B=${VERIF_BUILD:-$V/build}/$FLAVOR
mkdir -p "$B/lib" "$B/h" || exit 2
case $FLAVOR in
asan) CXX=clang++; FL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=nonnull-attribute,vptr,alignment,pointer-overflow -fno-sanitize-recover=all"; HFL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address";;
tsan) CXX=clang++; FL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread"; HFL="$FL";;
plain) CXX=g++; FL="-O1 -g1 -w"; HFL="$FL";;
cov) CXX=clang++; FL="-O1 -g1 -fsanitize=address -fprofile-instr-generate -fcoverage-mapping"; HFL="-O1 -g1 -fsanitize=address -fprofile-instr-generate";;
*) echo "unknown flavor"; exit 2;;
esac
LINK="$HFL"; [ $FLAVOR = asan ] && LINK="$FL"
HDR=$( (cat "$R"/include/rtmfp/*.hpp "$R"/src/*.hpp; echo "$CXX $FL") 2>/dev/null | sha256sum | cut -c1-16)
HH=$( (echo "$HDR"; cat "$V"/h/*.hpp) | sha256sum | cut -c1-16)
JOBS=$(mktemp)
LIBOBJ=()
for s in "$R"/src/*.cpp; do
	h=$( (echo "$HDR"; cat "$s") | sha256sum | cut -c1-16)
	o="$B/lib/$(basename "$s" .cpp).$h.o"
	LIBOBJ+=("$o")
	[ -f "$o" ] || { rm -f "$B/lib/$(basename "$s" .cpp)".*.o; echo "$CXX -std=c++11 $FL -c '$s' -o '$o.tmp' && mv '$o.tmp' '$o'" >> "$JOBS"; }
done
OBJ=()
for s in "$@"; do
	h=$( (echo "$HH$HFL"; cat "$V/h/$s") | sha256sum | cut -c1-16)
	o="$B/h/$(basename "$s" .cpp).$h.o"
	OBJ+=("$o")
	[ -f "$o" ] || { rm -f "$B/h/$(basename "$s" .cpp)".*.o; echo "$CXX -std=c++17 $HFL -I'$R/include' -I'$V/h' -I'$R/src' -c '$V/h/$s' -o '$o.tmp' && mv '$o.tmp' '$o'" >> "$JOBS"; }
done
if [ -s "$JOBS" ]; then
	xargs -d '\n' -P 8 -I{} sh -c '{}' < "$JOBS" > "$B/$NAME.log" 2>&1 || { cat "$B/$NAME.log"; rm -f "$JOBS"; echo "BUILD FAILED"; exit 2; }
fi
rm -f "$JOBS"
L=$(echo "${LIBOBJ[*]} ${OBJ[*]}" | sha256sum | cut -c1-16)
if [ ! -x "$B/$NAME.$L" ]; then
	rm -f "$B/$NAME".*
	AR="$B/librtmfp.$L.a"; rm -f "$B"/librtmfp.*.a; ar rc "$AR" "${LIBOBJ[@]}" || exit 2
	$CXX $LINK "${OBJ[@]}" "$AR" -lcrypto -lpthread -o "$B/$NAME.$L.tmp" && mv "$B/$NAME.$L.tmp" "$B/$NAME.$L" || { echo "LINK FAILED"; exit 2; }
fi
echo "$B/$NAME.$L"
