#!/bin/bash
# The same compiler built with debug assertions: it links the debug runtime library.
set -euo pipefail
V="$(cd "$(dirname "$0")/.." && pwd)"
bash "$V/tools/build_e2e.sh"
exec 9>"$V/.work/lock"; flock 9
cd "$V/e2e"
if ! cargo build --profile dbg --offline -p yul2wasm >"$V/.work/cargo-dbg.log" 2>&1; then tail -60 "$V/.work/cargo-dbg.log" >&2; exit 3; fi
