# Sourced by check.sh and setup.sh. Builds the monitors against /repo's current tree.
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/work"
exec 9>"$VERIF_DIR/work/build.lock"; flock 9
# Cargo decides by file times; a tree copied with old times would look unchanged.
stamp=$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.bnf' \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$stamp" != "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" ]; then
    for d in debug rel asan/x86_64-unknown-linux-gnu/debug miri/miri/x86_64-unknown-linux-gnu/debug; do
        rm -rf "$CARGO_TARGET_DIR/$d/.fingerprint"/cfg*
    done
fi
build() {
    (cd "$VERIF_DIR/harness" && cargo build --offline "$@" 2>"$VERIF_DIR/work/build.log") ||
        { tail -40 "$VERIF_DIR/work/build.log" >&2; flock -u 9; return 1; }
}
build || return 1
if [ -n "$WANT_REL" ]; then build --profile rel --no-default-features || return 1; fi
# Sanitizers. Without them C28 says so in its evidence and judges by the allocator alone.
if [ -n "$WANT_SAN" ]; then
    rm -f "$CARGO_TARGET_DIR/asan/built" "$CARGO_TARGET_DIR/miri/built"
    (cd "$VERIF_DIR/harness" && export RUSTUP_TOOLCHAIN=nightly
        RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/asan" cargo build --offline --target x86_64-unknown-linux-gnu &&
            touch "$CARGO_TARGET_DIR/asan/built"
    ) >"$VERIF_DIR/work/asan.log" 2>&1
    (cd "$VERIF_DIR/harness" && export RUSTUP_TOOLCHAIN=nightly
        MIRIFLAGS="-Zmiri-disable-isolation" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/miri" cargo miri run --offline -- list &&
            touch "$CARGO_TARGET_DIR/miri/built"
    ) >"$VERIF_DIR/work/miri.log" 2>&1
fi
echo "$stamp" > "$CARGO_TARGET_DIR/repo.stamp"
flock -u 9; exec 9>&-
