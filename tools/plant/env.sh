# Sourced by build.sh and test.sh.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUST_BACKTRACE=1
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RAV1E_CPU_TARGET
FEATURES=decode_test,decode_test_dav1d,capi,check_asm,serialize,channel-api,unstable,bench

# build.rs reassembles when the .asm files it lists change, but overlooks the
# header they all include: forget its hash when that header changes.
refresh_asm() {
  local new old
  new=$(sha256sum < /tmp/rw/src/ext/x86/x86inc.asm)
  old=$(cat /tmp/rw/target/vp-x86inc.sha256 2>/dev/null)
  if [ "$new" != "$old" ]; then
    rm -f /tmp/rw/target/*/build/rav1e-*/out/asm.hash
    mkdir -p /tmp/rw/target
    echo "$new" > /tmp/rw/target/vp-x86inc.sha256
  fi
}
