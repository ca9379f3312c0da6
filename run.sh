#!/bin/bash
# Builds the harness against /repo's working tree and runs one check.
#   ./run.sh check ID [quick|thorough]   |   [HV_FLAVOUR=plain|asan|msan|tsan] ./run.sh replay ID CASESEED   |   ./run.sh setup
cd "$(dirname "$0")" || exit 2
export HV_ROOT="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET HV_EVIDENCE HV_CHILD
[ "$1" = check ] && [ -n "$3" ] && export VERIF_TIER="$3"
mkdir -p target/parts evidence
# build FLAVOUR: leaves the path of the binary in $HV
build() {
  local flags="" args=() tool=+stable t=$PWD/target out=release
  case "$1" in
    plain) ;;
    asan) flags="--cfg hyper_unstable_ffi -Zsanitizer=address -Cforce-frame-pointers=yes"; args=(--features ffi,san) ;;
    tsan) flags="-Zsanitizer=thread -Cforce-frame-pointers=yes"; args=(--features san -Zbuild-std) ;;
    msan) flags="-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cforce-frame-pointers=yes"; args=(--features san -Zbuild-std) ;;
    *) echo "no such build: $1" >&2; exit 2 ;;
  esac
  if [ "$1" != plain ]; then
    tool=+nightly; t=$t/$1; out=x86_64-unknown-linux-gnu/release
    args+=(--target x86_64-unknown-linux-gnu)
  fi
  ( cd harness && RUSTFLAGS="$flags" cargo $tool build --release --offline --locked -q "${args[@]}" --target-dir "$t" ) >target/build-$1.log 2>&1 || {
    cat target/build-$1.log >&2; echo "harness build failed" >&2; exit 2; }
  HV=$t/$out/hv
}
# part ID FLAVOUR CASES BUDGET: runs a check in one build; a violation ends everything
parts=()
part() {
  local file="$PWD/target/parts/$1-$2.json"
  rm -f "$file"
  build "$2"
  HV_FLAVOUR=$2 HV_EVIDENCE=$file HV_CASES=$3 HV_BUDGET=$4 "$HV" check "$1"
  local rc=$?
  parts+=("$2=$file")
  if [ $rc != 0 ]; then merge "$1"; exit $rc; fi
}
# The interpreter: several processes with seeds of their own, each for so many seconds.
export MIRI_SYSROOT=$PWD/target/miri-sysroot
miri() { ( cd harness && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$1" cargo +nightly miri run --offline --locked -q --features san --target-dir "$HV_ROOT/target/miri" -- "${@:2}" ); }
mirisetup() {
  [ -d "$MIRI_SYSROOT/lib" ] || ( cd harness && cargo +nightly miri setup -q ) >target/build-miri.log 2>&1 || { cat target/build-miri.log >&2; exit 2; }
  miri 0 list >target/build-miri.log 2>&1 || { cat target/build-miri.log >&2; echo "harness build failed" >&2; exit 2; }
}
miripart() { # ID PROCESSES BUDGET
  mirisetup
  local i seed bad= log pids=()
  for ((i = 0; i < $2; i++)); do
    seed=$((${VERIF_SEED:-1} * 1000 + i))
    log=target/parts/$1-miri$i
    rm -f $log.json
    ( VERIF_SEED=$seed HV_FLAVOUR=miri HV_THREADS=1 HV_CASES=1000000 HV_BUDGET=$3 HV_EVIDENCE=$HV_ROOT/$log.json miri $seed direct "$1" >$log.log 2>&1; echo $? >$log.rc ) &
    pids+=($!)
  done
  wait "${pids[@]}"
  for ((i = 0; i < $2; i++)); do
    log=target/parts/$1-miri$i
    grep -E "^$1: |^  case|^harness|^inconclusive" $log.log | cut -c1-400
    case $(cat $log.rc) in
      0) parts+=("miri=$HV_ROOT/$log.json"); continue ;;
      1) if grep -qE "^VIOLATION|Undefined Behavior|Data race" $log.log; then bad=$log; fi ;;
      *) ;;
    esac
    if [ -z "$bad" ]; then tail -30 $log.log >&2; exit 2; fi
  done
  if [ -n "$bad" ]; then
    mkdir -p replays
    cp $bad.log replays/$1-miri.txt
    grep -m1 -A25 -E "Undefined Behavior|Data race" $bad.log >&2
    echo '{"property": "'$1'", "tier": "'${VERIF_TIER:-quick}'", "seed": '${VERIF_SEED:-1}', "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the interpreter stopped", "samples": [{"case": "see replays/'$1'-miri.txt"}]}, "wall_s": 0, "violations": 1}' >$bad.json
    parts+=("miri=$HV_ROOT/$bad.json")
    merge "$1"
    echo "VIOLATION property=$1 replay=$HV_ROOT/replays/$1-miri.txt"
    exit 1
  fi
}
merge() { python3 tools/merge.py "$1" "${parts[@]}" || exit 2; }
quick() { [ "${VERIF_TIER:-quick}" != thorough ]; }
case "$1-$2" in
  setup-*)
    build plain; build asan; build tsan; build msan; mirisetup; exit 0 ;;
  check-C23)
    if quick; then part C23 asan 12000 120; part C23 msan 12000 120; miripart C23 7 80
    else part C23 asan 1000000 1500; part C23 msan 1000000 1500; miripart C23 8 1500; fi
    merge C23; exit 0 ;;
  check-C24)
    export HV_THREADS=${HV_THREADS:-3}
    if quick; then part C24 plain 30000 200; part C24 tsan 8000 200; miripart C24 5 80
    else part C24 plain 1500000 1500; part C24 tsan 200000 1500; miripart C24 6 1500; fi
    merge C24; exit 0 ;;
  check-C25) build asan ;;
  check-*) build plain ;;
  replay-C23) build "${HV_FLAVOUR:-asan}" ;;
  replay-C24) build "${HV_FLAVOUR:-tsan}" ;;
  replay-C25) build "${HV_FLAVOUR:-asan}" ;;
  *) build "${HV_FLAVOUR:-plain}" ;;
esac
exec "$HV" "$@"
