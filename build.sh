#!/bin/bash
# build.sh GUEST...   builds the simulator and the named guests from /repo's working tree
set -e
cd "$(dirname "$0")"
ROOT=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.81.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
mkdir -p target/wasm
exec 9>target/.lock
flock 9

(cd sim && CARGO_TARGET_DIR=$ROOT/target/sim cargo build --release --locked -q 2>"$ROOT/target/sim.log") || { cat target/sim.log >&2; exit 2; }

# what the guests are built from: the content of /repo, not its time stamps
HASH=$( { (cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.js' -o -name '*.html' \) -print0 | sort -z | xargs -0 sha256sum)
  (cd guest && find stubs shim_liveview -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum); } | sha256sum | cut -c1-40)
for g in "$@"; do
  dir=guest/$g
  out=target/wasm/$g.wasm
  own=$(cd $dir && find . -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-40)
  if [ -f "$out" ] && [ "$(cat target/wasm/$g.stamp 2>/dev/null)" = "$HASH-$own" ]; then continue; fi
  export CARGO_TARGET_DIR=$ROOT/target/guest
  ( cd $dir
    for p in $(cat REPO_CRATES); do cargo clean -q --locked -p "$p" --target wasm32-wasi 2>/dev/null || true; done
    cargo build -q --locked --target wasm32-wasi >"$ROOT/target/$g.log" 2>&1 ) || { grep -E '^error' -A12 target/$g.log >&2 || tail -40 target/$g.log >&2; echo "cannot build guest $g" >&2; exit 2; }
  cp "$CARGO_TARGET_DIR/wasm32-wasi/debug/guest_$g.wasm" "$out.tmp"
  mv "$out.tmp" "$out"
  echo "$HASH-$own" > target/wasm/$g.stamp
done
