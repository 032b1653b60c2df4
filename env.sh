# toolchain settings shared by the checks (own target directory, nothing written to /repo)
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${VERIF_BUILD:-/verif/build}/target
unset RUSTFLAGS
