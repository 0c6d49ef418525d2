export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/.build/target"
export RUSTFLAGS="--cfg hodor_verif -Awarnings"
mkdir -p .build evidence
