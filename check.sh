#!/bin/bash
# check.sh <property> quick|thorough      run a check (rebuilds from /repo's working tree)
# check.sh replay <file>                  run one saved case
# check.sh build                          only build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true RHCHECK_VERIF="$here"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"

# cargo decides what to rebuild by file times; decide by content instead
(
  cd /repo/src || exit 2
  find . -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum > "$CARGO_TARGET_DIR/repo.sums.new"
  if [ -f "$CARGO_TARGET_DIR/repo.sums" ]; then
    diff "$CARGO_TARGET_DIR/repo.sums" "$CARGO_TARGET_DIR/repo.sums.new" | sed -n 's/^[<>] [0-9a-f]\{64\}  //p' | sort -u > "$CARGO_TARGET_DIR/changed"
    if [ -s "$CARGO_TARGET_DIR/changed" ]; then
      # touch nothing in /repo: force the rebuild by ageing cargo's record of the repo's own crates
      for c in ringhopper ringhopper-primitives ringhopper-structs ringhopper-structs-codegen ringhopper-engines ringhopper-engines-codegen ringhopper-definitions invader rhcheck clicheck; do
        find "$CARGO_TARGET_DIR/release/.fingerprint" -path "*/$c-*" -type f -exec touch -d '1980-01-01' {} + 2>/dev/null
      done
    fi
  fi
  mv "$CARGO_TARGET_DIR/repo.sums.new" "$CARGO_TARGET_DIR/repo.sums"
)
log="$CARGO_TARGET_DIR/build.log"
build() {
  if ! ( cd "$here/$1" && cargo build --release --offline --quiet ) > "$log" 2>&1; then
    tail -40 "$log"; echo "ERROR the harness does not build"; exit 2
  fi
}
id="${1:-}"
[ "$id" = replay ] && id="$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
# the checks of the command-line program live in a crate of their own, which contains its sources
case "$id" in
  C34|C35|C38|C39) dir=clicheck prog="$CARGO_TARGET_DIR/release/clicheck" ;;
  *) dir=harness prog="$CARGO_TARGET_DIR/release/rhcheck" ;;
esac
case "${1:-}" in
  build) build harness; build clicheck; exit 0 ;;
  replay) build $dir; exec "$prog" replay "$2" ;;
  *) build $dir; exec "$prog" run "$1" "${2:-quick}" ;;
esac
