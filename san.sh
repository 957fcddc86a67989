# Sourced after env.sh: build environment of the sanitizer builds. Usage: . san.sh address|thread
export TONBO_SAN="$1" RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$ROOT/target/$1" TONBO_VERIF_DIR="$ROOT/target/$1/gen"
export RUSTFLAGS="--cap-lints warn -Zsanitizer=$1"
SANBIN="$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/tonbo-verif"
