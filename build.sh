#!/bin/bash
# Builds /verif/mc against /repo's current working tree (content decides, not time stamps).
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
(
  cd "$here/mc" || exit 2
  mkdir -p target
  exec 9>target/.lock && flock 9
  sum=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum; cd "$here/mc" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ "$sum" != "$(cat target/.sum 2>/dev/null)" ] || [ ! -x target/release/mc ]; then
    rm -f target/.sum
    cargo clean --offline --release -p arche-tape -p untyped-vec -p mc >/dev/null 2>&1
    cargo build --offline --release >target/.log 2>&1 || { tail -40 target/.log; exit 2; }
    echo "$sum" >target/.sum
  fi
)
