#!/bin/bash
# Builds the runtime library of /repo's working tree natively under the sanitizers.
set -e
repo=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
out=$here/.work/native
mkdir -p "$out"
exec 8>"$out/.lock"; flock 8
# built again whenever anything it is made of differs
h="$(cat "$repo"/stdlib/*.c "$repo"/stdlib/*.h "$here"/native/* "$0" | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$out/stamp" 2>/dev/null || true)" = "$h" ] && [ -x "$out/asan_release" ] && [ -x "$out/asan_debug" ] && [ -x "$out/msan_release" ]; then exit 0; fi
rm -f "$out/stamp"
cc=clang-18
common="-O1 -g -Xclang -fexperimental-max-bitint-width=256 -ffreestanding -fno-builtin -w -no-pie -fno-pie
  -Dmemcpy=vp_memcpy -Dmemset=vp_memset -fno-omit-frame-pointer"
one() { # name flags...
  local name=$1; shift
  local objs=() extra=()
  local dir; dir=$(mktemp -d "$out/.$name.XXXX")
  for f in "$repo"/stdlib/*.c; do
    case "$(basename "$f")" in debug_in_release.c) [[ "$*" == *NDEBUG* ]] || continue ;; esac
    $cc $common "$@" '-D__builtin_wasm_memory_size(m)=vp_memory_size(m)' '-D__builtin_wasm_memory_grow(m,n)=vp_memory_grow(m,n)' \
      -include "$here/native/pages.h" -c "$f" -o "$dir/$(basename "$f").o"
  done
  $cc -O1 -g -w -no-pie -fno-pie -fno-omit-frame-pointer "$@" -fno-sanitize=function,alignment -c "$here/native/harness.c" -o "$dir/harness.o"
  $cc -no-pie "$@" "$dir"/*.o -lpthread -o "$dir/bin"
  mv "$dir/bin" "$out/$name"
  rm -rf "$dir"
}
san="-fsanitize=address,undefined,float-divide-by-zero,local-bounds -fno-sanitize=alignment -fno-sanitize-recover=all"
one asan_release $san -DNDEBUG &
p1=$!
one asan_debug $san &
p2=$!
one msan_release -fsanitize=memory -fno-sanitize-recover=all -fsanitize-memory-track-origins -DNDEBUG &
p3=$!
wait $p1; wait $p2; wait $p3
echo "$h" >"$out/stamp"
