#!/bin/bash
# Driver of the runtime monitors for berke/tofas.
#   run.sh setup                     build the harness against /repo
#   run.sh check <ID> quick|thorough decide one property (exit 0 held, 1 violation, else no verdict)
#   run.sh replay <file>             re-run the case named in a replay file
#   run.sh selftest                  check the reference models against published SOFA values
# Everything is rebuilt from /repo's working tree; build output goes to /verif/target*.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export VERIF_ROOT=$ROOT HARNESS_DIR=$ROOT/harness
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
HOST=x86_64-unknown-linux-gnu

say_build_failure() { echo "BUILD FAILED ($1)"; tail -n 40 "$2"; exit 2; }

build_main() {
  (cd harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$ROOT/target cargo build --release --offline --bins) >"$ROOT/target.log" 2>&1 ||
    say_build_failure main "$ROOT/target.log"
  export PROBE=$ROOT/target/release/probe
}
build_shipped() {
  (cd harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$ROOT/target cargo build --profile shipped --offline --bins) >"$ROOT/target-shipped.log" 2>&1 ||
    say_build_failure shipped "$ROOT/target-shipped.log"
}
died() { # property tier build status
  case $4 in
    132|134|135|136|139)
      # died without even its own crash report
      mkdir -p replays
      f=$ROOT/replays/$1-crash.txt
      printf 'property=%s\nbuild=%s\nsuite=unknown\nindex=0\nseed=%s\ntier=%s\nsignature=crash\nmessage=the monitor process died of signal %d\n' "$1" "$3" "${VERIF_SEED:-1}" "$2" $(($4 - 128)) >"$f"
      echo "VIOLATION property=$1 replay=$f"
      exit 1 ;;
    0) ;;
    *) exit "$4" ;;
  esac
}
build_asan() {
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$ROOT/target-asan RUSTFLAGS="-Zsanitizer=address" \
    cargo build --release --offline --target $HOST --bin probe) >"$ROOT/target-asan.log" 2>&1 ||
    say_build_failure asan "$ROOT/target-asan.log"
  export PROBE_ASAN=$ROOT/target-asan/$HOST/release/probe
}
build_tsan() {
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$ROOT/target-tsan RUSTFLAGS="-Zsanitizer=thread" \
    cargo build --release --offline -Zbuild-std --target $HOST --bin probe) >"$ROOT/target-tsan.log" 2>&1 ||
    say_build_failure tsan "$ROOT/target-tsan.log"
  # Some kernels randomise addresses more than ThreadSanitizer tolerates
  export PROBE_TSAN="setarch -R $ROOT/target-tsan/$HOST/release/probe"
  setarch -R true 2>/dev/null || export PROBE_TSAN=$ROOT/target-tsan/$HOST/release/probe
}
build_miri() {
  # The monitor runs "cargo miri run"; compile here so that compile errors are not verdicts.
  export MIRI_TARGET=$ROOT/target-miri
  export XDG_CACHE_HOME=$ROOT/target-miri/cache
  (cd harness && RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$MIRI_TARGET cargo miri run --offline --bin probe -- run 1 0 plain) >"$ROOT/target-miri.log" 2>&1
  export PROBE_MIRI="cargo miri run --offline --quiet --bin probe --"
}

case "$1" in
setup)
  build_main
  build_shipped
  "$ROOT/target/release/monitor" selftest >"$ROOT/target.selftest" || { cat "$ROOT/target.selftest"; exit 2; }
  echo "ready: $(grep -c '^ok' "$ROOT/target.selftest") published reference values reproduced"
  ;;
check)
  [ -n "$2" ] && [ -n "$3" ] || { echo "usage: run.sh check <ID> quick|thorough"; exit 2; }
  build_main
  build_shipped
  case "$2" in
    C33) build_tsan; build_miri ;;
    C34) build_asan; build_miri ;;
  esac
  # The references themselves are checked first: a wrong oracle gives no verdict.
  "$ROOT/target/release/monitor" selftest >"$ROOT/target.selftest" || { cat "$ROOT/target.selftest"; exit 2; }
  "$ROOT/target/release/monitor" "$2" "$3"
  died "$2" "$3" checked $?
  # Second pass: the library as its users build it
  VERIF_BUILD=shipped PROBE=$ROOT/target/shipped/probe "$ROOT/target/shipped/monitor" "$2" "$3"
  died "$2" "$3" shipped $?
  exit 0
  ;;
replay)
  build_main
  if grep -qx 'build=shipped' "$2"; then
    build_shipped
    export VERIF_BUILD=shipped PROBE=$ROOT/target/shipped/probe
    exec "$ROOT/target/shipped/monitor" replay "$2"
  fi
  p=$(sed -n 's/^property=//p' "$2")
  case "$p" in
    C33) build_tsan; build_miri ;;
    C34) build_asan; build_miri ;;
  esac
  exec "$ROOT/target/release/monitor" replay "$2"
  ;;
selftest)
  build_main
  exec "$ROOT/target/release/monitor" selftest
  ;;
*) echo "usage: run.sh setup | check <ID> quick|thorough | replay <file> | selftest"; exit 2 ;;
esac
