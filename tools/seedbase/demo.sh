#!/bin/bash
# builds llamapun from the current directory's src (with small stand-ins for the dependencies that
# are not available offline) together with demo.rs, and runs it: exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET
export RUSTFLAGS="--cap-lints allow" CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cp -r "$here/stubs" "$work/stubs" && mkdir -p "$work/llamapun" "$work/src" || exit 3
cp -r "$PWD/src" "$work/llamapun/src" || exit 3
cp "$here/demo.rs" "$work/src/main.rs"
mv "$work/stubs/llamapun.toml" "$work/llamapun/Cargo.toml"
mv "$work/stubs/demo.toml" "$work/Cargo.toml"
mv "$work/stubs/demo.lock" "$work/Cargo.lock"
mkdir "$work/scratch"
cd "$work" || exit 3
cargo build -q --offline || { echo "demo does not build"; exit 3; }
cd "$work/scratch" && exec_out=$("$CARGO_TARGET_DIR/debug/demo" "$work/scratch" 2>&1); rc=$?
echo "$exec_out" | tail -20
exit $rc
