#!/bin/bash
# Builds the compiler of the repository (cwd) in a scratch directory and runs demo.js against it.
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
tar xzf "$H/kit.tgz" -C "$T" || exit 2
export VERIF_REPO="$PWD" VERIF_SCRATCH="$T/scratch"
unset VERIF_BIN CARGO_TARGET_DIR
bash "$T/tools/@BUILD@" || exit 3
node "$T/kit.js" "$H/demo.js"
