export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg zokrates_pbt"
unset CARGO_PROFILE_DEV_DEBUG
