export PATH="/usr/local/bin:/usr/bin:/bin:$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/build/target
export RUSTFLAGS="--cfg eigen_verif -A warnings"
