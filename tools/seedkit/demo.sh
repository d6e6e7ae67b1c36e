#!/bin/bash
# Builds the library of the current directory against a stand-in for its
# (unavailable) cryptography crate, with main.rs, and runs that.
set -u
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
mkdir -p "$W/lib" "$W/demo/src"
cp -r "$H/askar-crypto" "$W/askar-crypto"
sed "s#/repo/src/lib.rs#$R/src/lib.rs#; s#../stubs/askar-crypto#../askar-crypto#" "$H/lib.toml" > "$W/lib/Cargo.toml"
cp "$H/main.rs" "$W/demo/src/main.rs"
cp "$H/demo.toml" "$W/demo/Cargo.toml"
cp "$H/demo.lock" "$W/demo/Cargo.lock"
cd "$W/demo"
CARGO_TARGET_DIR="$W/target" RUSTC_WRAPPER= cargo run -q --offline 2>"$W/err"
rc=$?
[ $rc = 0 ] || tail -n 15 "$W/err"
python3 -c 'import shutil,sys; shutil.rmtree(sys.argv[1])' "$W"
exit $rc
