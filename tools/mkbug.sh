#!/bin/bash
# mkbug.sh ID : takes the change made in the scratch copy /tmp/w as seeded/ID/patch.diff, and resets the copy.
# seeded/ID/main.rs and meta.json are written by hand; demo.sh is the same for all.
id="$1"; s="/verif/seeded/$id"; mkdir -p "$s"
git -C /tmp/w diff > "$s/patch.diff"
git -C /tmp/w checkout -q -- .
[ -s "$s/patch.diff" ] || { echo "$id: no change"; exit 1; }
cat > "$s/demo.sh" <<'D'
#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory, and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
d="$(mktemp -d)" || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
boostvoronoi = { path = "$repo", features = ["serde"] }
serde_json = "1"
serde = "1"
[profile.dev]
opt-level = 1
T
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS=--cap-lints=allow RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline -q || exit 3
mkdir "$d/run" && cd "$d/run" && timeout 120 "$d/target/debug/demo"
D
echo "$id: $(grep -c '^[-+][^-+]' "$s/patch.diff") changed lines"
