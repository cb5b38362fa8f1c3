export PATH=/root/.cargo/bin:$PATH
export CARGO_TARGET_DIR=/verif/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
