#!/bin/bash
# bash run.sh <property> <quick|thorough> [--section S] [--case N]
# bash run.sh --build
# Builds the monitors from /repo's current working tree and runs those of one property.
# Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
export RV_ROOT=$ROOT
STABLE=stable-x86_64-unknown-linux-gnu
mkdir -p evidence replay target
exec 9>target/.lock
flock 9

# Content of the tree under test: cargo looks at modification times only.
tree_hash() {
  (cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
}
# build <toolchain> <target dir> <cargo args...>
build() {
  local tc=$1 dir=$2; shift 2
  local h; h=$(tree_hash)
  if [ "$(cat "$dir/.tree" 2>/dev/null)" != "$h" ]; then
    find "$dir" -type d \( -name 'reCTBN-*' -o -name 'rv-*' \) -path '*/.fingerprint/*' -prune -exec rm -rf {} + 2>/dev/null
  fi
  mkdir -p "$dir"
  local log=$dir/.build.log
  if (cd harness && CARGO_TARGET_DIR=$dir timeout 500 cargo +$tc build --offline --release "$@") >"$log" 2>&1; then
    echo "$h" >"$dir/.tree"
    return 0
  fi
  return 1
}
# The monitors which implement traits of the crate are left out when they do not compile any more.
build_main() {
  build $STABLE "$ROOT/target" && { BUILD=full; return 0; }
  cp target/.build.log target/.build-full.log
  build $STABLE "$ROOT/target" --no-default-features && { BUILD=reduced; return 0; }
  return 1
}

if ! build_main; then
  tail -n 60 target/.build.log
  echo "NO-ANSWER: the monitors do not build against /repo"
  exit 2
fi
if [ "$1" = --build ]; then
  . "$ROOT/sanitize.sh"
  san_build tsan || echo "note: no ThreadSanitizer build here"
  exit 0
fi
PROP=$1 TIER=${2:-quick}
[ $BUILD = reduced ] && echo "note: built without the monitors which implement the traits of the crate"
cp -f target/release/rv "target/.rv.$$"
flock -u 9
trap 'rm -f "$ROOT/target/.rv.$$"' EXIT
LIMIT=780; [ "$TIER" = thorough ] && LIMIT=14000
timeout $LIMIT "target/.rv.$$" "$@"
rc=$?
case $rc in
  0|1) ;;
  *) echo "NO-ANSWER: the monitors ended with code $rc"; exit 2;;
esac
if [ $rc = 0 ] && [ "$PROP" = C29 ] && [ $# -le 2 ]; then
  . "$ROOT/sanitize.sh"
  sanitize "$TIER"
  rc=$?
fi
exit $rc
