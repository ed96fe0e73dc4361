#!/bin/bash
# run.sh setup | check ID [quick|thorough] | replay FILE
# Builds the harness against /repo's current working tree and runs one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
export VH_VERIF="$here" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
log="$here/harness/target/build-$$.log"
mkdir -p "$here/harness/target" "$here/evidence"
build() {
  cargo build --offline >"$log" 2>&1 || { grep -E "^(error|warning: unused)" -A8 "$log" | head -60 >&2; echo "harness build failed" >&2; rm -f "$log"; exit 2; }
  rm -f "$log"
}
case "${1:-}" in
  setup) build; "$here/harness/target/debug/vh" presan; exit 0 ;;
  check) build; shift; exec "$here/harness/target/debug/vh" check "$@" ;;
  replay) build; VH_VERBOSE=1 exec "$here/harness/target/debug/vh" replay "$2" ;;
  *) echo "usage: run.sh setup | check ID [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
