#!/bin/bash
# Runs main.rs against the factrs sources in the current directory: exit 0 if it holds.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.85.1-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS=--cap-lints=allow
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/pkg" "$d/demo/src"
cp -r "$repo/src" "$repo/factrs-proc" "$d/pkg/"
python3 - "$repo" "$d" <<'P'
import re, sys
repo, d = sys.argv[1:]
t = open(repo + "/Cargo.toml").read()
t = re.sub(r"(?m)^typetag\s*=.*\n", "", t)
t = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", t)
t = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", t)
t = re.sub(r"(?ms)^\[\[(example|test|bench)\]\].*?(?=^\[|\Z)", "", t)
t = re.sub(r"(?ms)^\[workspace\].*?(?=^\[|\Z)", "", t)
open(d + "/pkg/Cargo.toml", "w").write(t)
P
[ -f "$repo/README.md" ] && cp "$repo/README.md" "$d/pkg/"
cp "$repo/Cargo.lock" "$d/demo/Cargo.lock"
feat=$(cat "$here/features" 2>/dev/null || true)
cat > "$d/demo/Cargo.toml" <<P
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
factrs = { path = "../pkg", features = [$feat] }
nalgebra = "0.33.2"
paste = "1.0.15"
ahash = "0.8.11"
faer = { version = "0.19.4", default-features = false, features = ["std"] }
P
cp "$here/main.rs" "$d/demo/src/main.rs"
cd "$d/demo"
CARGO_TARGET_DIR="$d/target" cargo build --offline -q
"$d/target/debug/demo"
