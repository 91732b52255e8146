#!/bin/bash
# Compile /repo's current sources to LLVM bitcode: build_sut.sh OUT.bc [REPO]
set -e
out=$1; repo=${2:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
flags="-std=gnu11 -O0 -Xclang -disable-O0-optnone -fno-builtin -g -w -D__NO_CTYPE -U_FORTIFY_SOURCE -Dmain=sut_main -Wno-error -Wno-error=implicit-function-declaration -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -I$repo/Shared -I$repo/Basic -I$repo/Monitor -I$repo/System -emit-llvm"
pids=()
for f in $(find $repo/Basic $repo/Shared $repo/Monitor $repo/System -name '*.c' | sort); do
  b=$(basename $f .c); [ $b = CuTest ] && continue
  ( clang $flags -include "$here/prelude.h" -c "$f" -o "$d/$b.bc" 2>"$d/$b.err" || clang $flags -c "$f" -o "$d/$b.bc" ) & pids+=($!)
done
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done; [ $rc = 0 ] || { cat "$d"/*.err >&2; exit 4; }
llvm-link "$d"/*.bc -o "$out" 2>/dev/null || /usr/lib/llvm-18/bin/llvm-link "$d"/*.bc -o "$out"
