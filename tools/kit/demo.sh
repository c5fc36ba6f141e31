#!/bin/bash
# Compiles the real pallet sources of the current directory (/repo) against the stub Substrate layer in kit.tgz,
# together with demo.rs, and runs it. Exit 0: the behaviour shown in demo.rs is right.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
tar -xzf "$D/kit.tgz" -C "$W" || exit 9
cp "$D/demo.rs" "$W/demo/demo.rs"
grep -rlF /repo/ "$W" --include=Cargo.toml --include=*.rs | xargs -r sed -i "s#/repo/#$PWD/#g"
cd "$W" || exit 9
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$W/target" CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=8 \
	cargo build --offline --release -q -p demo > "$W/log" 2>&1 || { grep -m5 -A8 '^error' "$W/log"; exit 9; }
"$W/target/release/demo"
