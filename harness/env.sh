export HOME=/root LANG=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2024-12-30
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset DATABASE_URL RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET
