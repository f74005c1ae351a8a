#!/bin/bash
# Mirror /repo's sources into .work/repo (content-based, so unchanged files keep their mtimes) and
# build the runtime library there.
set -euo pipefail
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
mkdir -p "$V/.work/repo"
rsync -a --checksum --no-times --delete "$R/src/" "$V/.work/repo/src/"
rsync -a --checksum --no-times --delete --exclude /wasm "$R/stdlib/" "$V/.work/repo/stdlib/"
S="$V/.work/repo/stdlib"
h="$(cd "$S" && cat Makefile *.c *.h | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$V/.work/stdlib.stamp" 2>/dev/null || true)" != "$h" ]; then
  if ! make -C "$S" -B -j8 debug release CC=clang-16 >"$V/.work/stdlib.log" 2>&1; then
    tail -30 "$V/.work/stdlib.log" >&2; exit 3
  fi
  echo "$h" >"$V/.work/stdlib.stamp"
fi
B="$V/.work/rt"
mkdir -p "$B"
if [ ! -f "$B/libclang_rt.builtins-wasm32.a" ] || [ "$V/e2e/rt_builtins.c" -nt "$B/libclang_rt.builtins-wasm32.a" ]; then
  clang-16 --target=wasm32 -O2 -ffreestanding -fno-builtin -c "$V/e2e/rt_builtins.c" -o "$B/b.o"
  AR="$(command -v llvm-ar-18 || command -v llvm-ar || echo ar)"
  rm -f "$B/libclang_rt.builtins-wasm32.a"
  "$AR" rcs "$B/libclang_rt.builtins-wasm32.a" "$B/b.o"
fi
