#!/bin/bash
# Build the real compiler (against the shimmed third-party crates) and the runtime library.
set -euo pipefail
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/.work"
exec 9>"$V/.work/lock"; flock 9
bash "$V/tools/sync.sh"
cd "$V/e2e"
if ! cargo build --release --offline -p yul2wasm >"$V/.work/cargo.log" 2>&1; then tail -60 "$V/.work/cargo.log" >&2; exit 3; fi
