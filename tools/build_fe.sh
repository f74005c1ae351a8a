#!/bin/bash
# Build the front-end driver (grammar, AST, text utilities of /repo).
set -euo pipefail
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/.work"
exec 9>"$V/.work/lock"; flock 9
bash "$V/tools/sync.sh"
cd "$V/e2e"
if ! cargo build --release --offline -p fe >"$V/.work/cargo-fe.log" 2>&1; then tail -60 "$V/.work/cargo-fe.log" >&2; exit 3; fi
