# Build environment of the harness (offline; nothing outside /verif is written).
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh
