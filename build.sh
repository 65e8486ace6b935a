#!/bin/bash
# Builds the harness, and the command line tool if asked to (with --cli), from
# /repo's working tree. Leaves the list of hook groups it had to do without in
# harness/target/dropped.
cd "$(dirname "$0")/harness" || exit 3
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_OPT_LEVEL CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/rustc-wrapper.sh"
ALL="fft lag spectro nsim patches matching mapping"
mkdir -p target

cfgs() { local f="" g; [ $# -gt 0 ] && f="--cfg visqol_verif"; for g in "$@"; do f="$f --cfg visqol_verif=\"$g\""; done; echo "$f"; }

# A rebuild depends on what the sources say, not on their time stamps.
digest() {
  (cd /repo && find visqol-rs/src visqol/src visqol-rs/Cargo.toml visqol/Cargo.toml Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; echo "$1") | sha256sum
}
make_with() {  # groups...
  export VH_CFG="$(cfgs "$@")"
  local now; now="$(digest "$VH_CFG")"
  if [ "$(cat target/built 2>/dev/null)" != "$now" ]; then
    rm -f target/built
    cargo clean --offline -q -p visqol-rs -p vh -p visqol 2>/dev/null
  fi
  cargo build --offline -q -p vh $CLI 2> target/build.log || return 1
  echo "$now" > target/built
}
CLI=""; [ "$1" = --cli ] && CLI="-p visqol"
: > target/dropped
make_with $ALL && exit 0
cp target/build.log target/build.all.log
# Some hook no longer fits the code: find out which groups still do.
keep=""
for g in $ALL; do
  rm -f target/built
  cargo clean --offline -q -p visqol-rs -p vh 2>/dev/null
  if VH_CFG="$(cfgs $g)" cargo check --offline -q -p vh > /dev/null 2>&1; then keep="$keep $g"; else echo "$g" >> target/dropped; fi
done
make_with $keep && { echo "hook groups left out: $(tr '\n' ' ' < target/dropped)" >&2; exit 0; }
echo "$ALL" | tr ' ' '\n' > target/dropped
make_with && { echo "hooks left out" >&2; exit 0; }
tail -40 target/build.log >&2
exit 3
