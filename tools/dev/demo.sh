#!/bin/bash
# exit 0: the property's instance holds; nonzero: it is broken
# builds demo.rs against a scratch copy of /repo's crates
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/opt/typst/bin:/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER= CARGO_TARGET_DIR=$t/target
mkdir -p "$t/ws/crates/vdemo/src" "$t/ws/packages"
cp -r /repo/packages/mitex "$t/ws/packages/mitex"
for c in mitex mitex-parser mitex-lexer mitex-spec mitex-spec-gen mitex-glob; do
    cp -r /repo/crates/$c "$t/ws/crates/$c"
done
cp /repo/Cargo.lock "$t/ws/Cargo.lock"
sed 's/^members = .*/members = ["crates\/*"]/' /repo/Cargo.toml > "$t/ws/Cargo.toml"
cat > "$t/ws/crates/vdemo/Cargo.toml" <<'X'
[package]
name = "vdemo"
version = "0.0.0"
edition = "2021"
[dependencies]
mitex = { path = "../mitex" }
mitex-parser = { path = "../mitex-parser" }
mitex-lexer = { path = "../mitex-lexer" }
mitex-spec = { path = "../mitex-spec" }
mitex-spec-gen = { path = "../mitex-spec-gen" }
rowan.workspace = true
X
cp "$d/demo.rs" "$t/ws/crates/vdemo/src/main.rs"
cd "$t/ws" && cargo build -q --offline -p vdemo || exit 3
timeout 60 "$t/target/debug/vdemo"
