#!/bin/bash
# build.sh REPO OUTDIR SRC...: compiles SRC with all of REPO's library against the fake S3; prints the binary
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$1 out=$2; shift 2
mkdir -p "$out"
inc="-I$repo/include -I$repo/src/streaming -I$repo/src/logger -I$here"
fl="-std=c++20 -O1 -g -w ${DEMO_FLAGS:-}"
echo '#define ACQUIRE_ZARR_API_VERSION "x"' >"$out/version.h"
pre="-include $out/version.h -include string -include algorithm -include cstring -include list -include memory -include atomic -include vector"
ls "$repo"/src/streaming/*.cpp "$repo"/src/logger/*.cpp "$here"/fake_s3.cpp "$@" |
  xargs -P 8 -I{} sh -c 'g++ '"$fl $pre $inc"' -c {} -o '"$out"'/$(echo {} | tr / _).o'
g++ $fl "$out"/*.o -o "$out/demo" -lblosc -lpthread ${DEMO_LIBS:-} -ldl
echo "$out/demo"
