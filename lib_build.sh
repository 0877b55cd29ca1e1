# sourced by check and setup.sh
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$V/target"

# Cargo decides by modification time; copies of the tree may carry times that
# do not reflect their content, so the content itself decides here.
vh_stamp() {
  (cd /repo && find rawler/src rawler/data rawler/Cargo.toml embedftp/src embedftp/Cargo.toml bin/dnglab/src bin/dnglab/dnglab-lib Cargo.toml -type f -not -path '*/testdata/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
vh_build() {
  mkdir -p "$CARGO_TARGET_DIR"
  (
    flock 9
    local now old log
    now=$(vh_stamp)
    old=$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)
    log="$CARGO_TARGET_DIR/build.log"
    if [ "$now" != "$old" ]; then
      rm -f "$CARGO_TARGET_DIR/repo.stamp"
      (cd "$V/harness" && cargo clean --offline --release -p rawler -p embedftp -p dnglab_lib -p vh) >"$log" 2>&1
    fi
    args=()
    for b in "$@"; do args+=(--bin "$b"); done
    [ "$1" = all ] && args=(--bins)
    if ! (cd "$V/harness" && cargo build --offline --release "${args[@]}") >"$log" 2>&1; then
      cat "$log" >&2
      exit 1
    fi
    echo "$now" > "$CARGO_TARGET_DIR/repo.stamp"
  ) 9>"$CARGO_TARGET_DIR/.lock"
}
