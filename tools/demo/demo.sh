#!/bin/bash
# Builds main.rs (beside this file) against the workspace that the build made from /repo, in a scratch folder, and
# runs it: exit 0 when the behaviour is right, nonzero when it is not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
[ -e /opt/vp/ws/cdn-broker/Cargo.toml ] || bash /opt/vp/build.sh >/dev/null 2>&1
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here"/*.rs "$scratch/src/"
cp /opt/vp/ws/Cargo.lock "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cdn-proto = { path = "/opt/vp/ws/cdn-proto", features = ["metrics"] }
cdn-broker = { path = "/opt/vp/ws/cdn-broker" }
cdn-marshal = { path = "/opt/vp/ws/cdn-marshal" }
cdn-client = { path = "/opt/vp/ws/cdn-client" }
tokio = { version = "1", default-features = false, features = ["full"] }
async-trait = "0.1"
anyhow = "1"
T
export CARGO_TARGET_DIR="$scratch/target"
cd "$scratch"
cargo build --offline -q 2>"$scratch/build.log" || { tail -40 "$scratch/build.log"; exit 3; }
# (Brokers ask for the machine's own address.)
if unshare -Urn true 2>/dev/null; then
    unshare -Urn bash -c 'ip link set lo up && ip addr add 10.99.0.1/24 dev lo; exec "$@"' run timeout 200 "$scratch/target/debug/demo"
else
    timeout 200 "$scratch/target/debug/demo"
fi
