#!/bin/bash
# usage: check.sh build | check.sh C01 [replay]
# Builds the harness against /repo's current working tree and explores one property.
set -u
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true
mkdir -p target evidence
build() {
  (
    flock 9
    # cargo decides staleness by mtime; go by content instead
    sum=$( { find /repo/common /repo/bddcore /repo/mddcore /repo/bss /repo/mss -path '*/target' -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 \
        | sort -z | xargs -0 sha256sum; find harness -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum | cut -d' ' -f1)
    if [ ! -x target/release/mc ] || [ "$(cat target/mc.stamp 2>/dev/null)" != "$sum" ]; then
      rm -f target/mc.stamp
      rm -rf target/release/.fingerprint/relib-* target/release/.fingerprint/mc-*
      (cd harness && cargo build --release --offline --quiet) >target/build.log 2>&1 || { cat target/build.log; exit 1; }
      echo "$sum" >target/mc.stamp
    fi
  ) 9>target/.lock
}
if ! build; then
  echo "ERROR: the harness does not build against /repo" >&2
  exit 3
fi
case "${1:-}" in
  build) exit 0 ;;
  replay) exec target/release/mc replay "$2" ;;
  *) exec target/release/mc run "$1" ;;
esac
