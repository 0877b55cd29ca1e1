#!/bin/bash
# usage: go.sh c16 args...  : builds harness against /tmp/se and runs it
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/hx/target VERIF_DIR=/tmp/hx
mkdir -p /tmp/hx/harness /tmp/hx/evidence /tmp/hx/replays
rsync -a --delete --exclude target /verif/harness/ /tmp/hx/harness/ 2>/dev/null || { rm -rf /tmp/hx/harness; cp -a /verif/harness /tmp/hx/harness; }
cp /verif/known_findings.jsonl /tmp/hx/
sed -i 's#"/repo/#"/tmp/se/#' /tmp/hx/harness/Cargo.toml
grep -rl '/repo/' /tmp/hx/harness/src | head
cd /tmp/hx/harness && cargo build --offline --release --bin dnglab --bin $1 2>&1 | grep -E "^error|warning: unused" -A5 | head -40
b=$1; shift
exec /tmp/hx/target/release/$b "$@"
