#!/bin/bash
# Builds and runs main.rs against the repository in the current directory.
# exit 0: the property holds on this history; 1: it is broken; 2: could not be built.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh 2>/dev/null || true
d=$(mktemp -d /tmp/khdemo.XXXXXX) || exit 2
trap 'case "$d" in /tmp/khdemo.*) rm -rf -- "$d";; esac' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/common.rs" "$d/src/" && cp "$here/Cargo.lock" "$d/" || exit 2
cat > "$d/Cargo.toml" <<T
[package]
name = "kh_harness"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
keyhive_core = { path = "$repo/keyhive_core", features = ["test_utils"] }
keyhive_crypto = { path = "$repo/keyhive_crypto" }
beekem = { path = "$repo/beekem", features = ["test_utils"] }
tokio = { version = "1.43", features = ["macros", "rt", "time"] }
futures = "0.3.31"
serde = { version = "1.0", features = ["derive", "rc"] }
serde_json = "1"
bincode = "1.3"
rand = "0.8.5"
ed25519-dalek = "2.1"
nonempty = "0.10"
dupe = "0.9"
future_form = "0.3.1"
x25519-dalek = { version = "2.0", features = ["static_secrets"] }
[profile.dev]
debug = false
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="${KHDEMO_TARGET:-$d/target}"
cargo build --offline >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 2; }
timeout 100 "$CARGO_TARGET_DIR/debug/kh_harness"
rc=$?
[ $rc = 0 ] && echo "holds" || echo "BROKEN (rc=$rc)"
[ $rc = 0 ] && exit 0 || exit 1
