export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/root/.cargo/bin:/opt/soroban/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.79.0-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS
export CARGO_TARGET_DIR=/verif/.build/target
