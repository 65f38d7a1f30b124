#!/bin/bash
# Builds pa2 from /repo's working tree against the simulated async-std and runs a check.
#   check.sh build
#   check.sh check PROPERTY [quick|thorough]
#   check.sh replay FILE [full]
#   check.sh scan PROPERTY [CASES] | one PROPERTY SEED [full]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
T="$PWD/target"
mkdir -p "$T" || exit 2
build() {
  exec 9>"$T/.build.lock"
  flock 9
  # what the build depends on, by content: file times say nothing in a copied tree
  local sum
  sum=$({ find /repo/src /repo/Cargo.toml /repo/build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
          find simcore async-std-sim driver pa2sim -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
  if [ ! -x "$T/debug/dst" ] || [ ! -x "$T/debug/pa2sim" ] || [ "$(cat "$T/.built" 2>/dev/null)" != "$sum" ]; then
    rm -f "$T/.built"
    ( cd pa2sim && export CARGO_TARGET_DIR="$T" &&
      { cargo clean --offline -p pipeawesome2 -p pa2sim -p dst -p simcore -p async-std >/dev/null 2>&1 || true; } &&
      cargo build --offline --bins -p pa2sim -p dst ) >"$T/build.log" 2>&1 || {
      grep -E '^error' -A8 "$T/build.log" | head -60
      echo "ERROR the simulated pa2 does not build (see $T/build.log)"
      exec 9>&-
      return 2
    }
    echo "$sum" >"$T/.built"
  fi
  exec 9>&-
}
case "$1" in
  build) build ;;
  check|scan|one|replay) build || exit 2; exec "$T/debug/dst" "$@" ;;
  *) sed -n 2,7p "$0"; exit 2 ;;
esac
