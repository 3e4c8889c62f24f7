#!/bin/bash
# check.sh <property> quick|thorough   run a check against /repo's working tree
# check.sh replay <file>               run a recorded violation again
# check.sh setup                       build everything once
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
export MC_WORK="$here/work" MC_EVIDENCE="$here/evidence" MC_KNOWN="$here/KNOWN_FINDINGS.txt"
mkdir -p "$MC_WORK" "$MC_EVIDENCE"
cd "$here/mc" || exit 2

build() { # <target dir> <cargo arguments>
  local dir=$1 log; shift
  log="$MC_WORK/build-$(basename "$dir")-$$.log"
  if ! cargo build --offline --target-dir "$dir" "$@" >"$log" 2>&1; then
    echo "BUILD FAILED ($*)" >&2; grep -E '^error' -A8 "$log" | head -60 >&2
    mv "$log" "$MC_WORK/failed-$(basename "$dir").log"; return 1
  fi
  rm -f "$log" "$MC_WORK/failed-$(basename "$dir").log"
}
main=$here/mc/target
bin=$main/release/mc
# name=binary of all build configurations
all="std-checked=$bin nostd-checked=$main/n/release/mc std-ship=$main/s/ship/mc nostd-ship=$main/ns/ship/mc std-dev=$main/d/debug/mc nostd-dev=$main/nd/debug/mc"
build_all() {
  local pids=() rc=0 p
  build "$main" --release & pids+=($!)
  build "$main/n" --release --no-default-features & pids+=($!)
  build "$main/s" --profile ship & pids+=($!)
  build "$main/ns" --profile ship --no-default-features & pids+=($!)
  build "$main/d" & pids+=($!)
  build "$main/nd" --no-default-features & pids+=($!)
  for p in "${pids[@]}"; do wait "$p" || rc=1; done
  return $rc
}
case "${1:-}" in
  setup) build "$main" --release || exit 2; echo built; exit 0 ;;
  replay)
    if grep -q '^property=C23' "$2"; then build_all || exit 2; "$bin" replay "$2" $all
    else build "$main" --release || exit 2; "$bin" replay "$2"; fi ;;
  C23)
    if ! build_all; then
      # the crate itself compiles in the default configuration but not in another one: they do not behave alike
      [ -e "$MC_WORK/failed-target.log" ] && exit 2
      for f in "$MC_WORK"/failed-*.log; do
        if grep -q 'could not compile `dmidecode`' "$f"; then
          echo "VIOLATION property=C23 replay=$f"; exit 1
        fi
      done
      exit 2
    fi
    "$bin" run C23 "${2:-quick}" $all ;;
  C[0-9][0-9]) build "$main" --release || exit 2; "$bin" run "$1" "${2:-quick}" ;;
  *) echo "usage: check.sh <property> quick|thorough | replay <file> | setup" >&2; exit 2 ;;
esac
