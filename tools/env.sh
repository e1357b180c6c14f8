# Sourced by every script of /verif.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
export RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS="--cfg verif_hooks"
export CARGO_TARGET_DIR="$VERIF/.work/target"
export VERIF_WS="$VERIF/.work/ws"
