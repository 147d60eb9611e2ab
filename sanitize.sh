# Sourced by run.sh: the C29 workload under the sanitizers (nightly toolchain, std rebuilt).
NIGHTLY=nightly-x86_64-unknown-linux-gnu
TRIPLE=x86_64-unknown-linux-gnu

san_build() {
  local name=$1
  MONFLAG=; [ $BUILD = reduced ] && MONFLAG=--no-default-features
  mkdir -p "$ROOT/target-$name"
  case $name in
    # The cfg makes the work-stealing deque use orderings which ThreadSanitizer understands.
    tsan) RUSTFLAGS="-Zsanitizer=thread --cfg crossbeam_sanitize_thread" \
          build $NIGHTLY "$ROOT/target-tsan" --target $TRIPLE -Zbuild-std $MONFLAG;;
    asan) RUSTFLAGS="-Zsanitizer=address" \
          build $NIGHTLY "$ROOT/target-asan" --target $TRIPLE $MONFLAG;;
  esac
}
# san_run <name> <mode> <timeout>
san_run() {
  local name=$1 mode=$2 limit=$3
  local dir=$ROOT/target-$name out=$ROOT/target-$name/report
  if ! san_build $name; then
    echo "note: no $name build here"
    python3 "$ROOT/report.py" C29 "$name" unavailable
    return 0
  fi
  rm -f "$out".* "$dir/evidence.json"
  TSAN_OPTIONS="halt_on_error=0 exitcode=0 report_thread_leaks=0 report_signal_unsafe=0 history_size=4 log_path=$out" \
  ASAN_OPTIONS="detect_leaks=0 halt_on_error=1 log_path=$out" \
    timeout "$limit" "$dir/$TRIPLE/release/rv" C29 "$mode" --evidence "$dir/evidence.json" >"$dir/.run.log" 2>&1
  python3 "$ROOT/report.py" C29 "$name" $? "$dir"
}

sanitize() {
  local tier=$1 bad=0
  exec 9>target/.lock; flock 9
  if [ "$tier" = thorough ]; then
    san_run tsan tsanlong 3000 || bad=1
    san_run asan asan 3000 || bad=1
    miri || bad=1
  else
    san_run tsan tsan 240 || bad=1
  fi
  return $bad
}

miri() {
  local dir=$ROOT/target-miri
  mkdir -p "$dir"
  (cd harness && MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-disable-isolation" RAYON_NUM_THREADS=3 \
    CARGO_TARGET_DIR=$dir timeout 3000 cargo +$NIGHTLY miri run --offline $MONFLAG -- C29 miri --evidence "$dir/evidence.json") >"$dir/.run.log" 2>&1
  local rc=$?
  python3 "$ROOT/report.py" C29 miri $rc "$dir"
}
