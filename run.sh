#!/bin/bash
# run.sh <property> <quick|thorough> [--replay FILE]: builds the check against /repo and runs it.
# run.sh --build: builds all checks.
cd /verif || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="-Awarnings"
unset CC HOST_CC HOST_CFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export VERIF_DIR=/verif
chash=$(cd /repo && find extern -type f \( -name '*.c' -o -name '*.h' \) -print0 | LC_ALL=C sort -z | xargs -0r sha256sum | sha256sum | cut -c1-16)
export CFLAGS="-DVP_EXTERN_HASH=h$chash"
T=/verif/target
mkdir -p $T
# Cargo decides by time stamps; decide by content instead.
now=$(cd /repo && find src extern build.rs Cargo.toml Cargo.lock -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0r sha256sum | sha256sum)
if [ "$(cat $T/.repo-hash 2>/dev/null)" != "$now" ]; then
    if [ -d $T/release ] || [ -d $T/checked ]; then
        find $T/release $T/checked -maxdepth 2 -path '*.fingerprint/scalable_mpc-*' -prune -exec rm -rf {} + 2>/dev/null
        find $T/release $T/checked -maxdepth 2 -path '*.fingerprint/mc-*' -prune -exec rm -rf {} + 2>/dev/null
    fi
    echo "$now" > $T/.repo-hash
fi
build() { # profile, targets...
    local p=$1; shift
    cargo build -q --locked --offline --manifest-path /verif/mc/Cargo.toml --target-dir $T --profile "$p" "$@"
}
if [ "$1" = "--build" ]; then
    build release --lib && build checked --lib || exit 2
    # A check that does not build says so itself when it is run.
    build release --bins --keep-going
    build checked --bins --keep-going
    exit 0
fi
id=$1; tier=${2:-quick}; shift 2
bin=$(echo "$id" | tr A-Z a-z)
log=$T/build-$id.log
( build release --bin "$bin" & p1=$!; build checked --bin "$bin"; r2=$?; wait $p1 && [ $r2 = 0 ] ) > "$log" 2>&1
if [ $? != 0 ]; then
    # A second attempt rules out a passing disturbance.
    if ! { build release --bin "$bin" && build checked --bin "$bin"; } > "$log" 2>&1; then
        cat "$log" | tail -40
        echo "check error: build failed"
        exit 2
    fi
fi
exec $T/release/$bin --tier "$tier" --also $T/checked/$bin "$@"
