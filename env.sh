# Build environment shared by the scripts (same toolchain and flags as the sandbox's own build, so
# that its compiled dependencies can be reused).
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.90 RUSTFLAGS="--cap-lints warn" CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$ROOT/target" TONBO_VERIF_DIR="$ROOT/target/gen" RUSTC_WRAPPER="$ROOT/rustc-wrap.sh"
export TMPDIR="${TMPDIR:-/tmp}"
