#!/bin/bash
# Builds demo.rs against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$d/target" TMPDIR="$d"
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here"/*.bin "$d/src/" 2>/dev/null
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
rawler = { path = "$repo/rawler", features = ["clap"] }
TOML
grep -q rayon "$here/demo.rs" && echo 'rayon = "1"' >> "$d/Cargo.toml"
if grep -q dnglab_lib "$here/demo.rs"; then
cat >> "$d/Cargo.toml" <<TOML
dnglab_lib = { path = "$repo/bin/dnglab/dnglab-lib" }
tokio = { version = "1", features = ["full"] }
TOML
fi
if grep -q embedftp "$here/demo.rs"; then
cat >> "$d/Cargo.toml" <<TOML
embedftp = { path = "$repo/embedftp" }
TOML
grep -q dnglab_lib "$here/demo.rs" || echo 'tokio = { version = "1", features = ["full"] }' >> "$d/Cargo.toml"
fi
cd "$d" || exit 1
cargo build --offline -q >"$d/log" 2>&1 || { cat "$d/log" >&2; exit 1; }
"$d/target/debug/demo"
