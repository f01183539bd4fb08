#!/bin/bash
# usage: check.sh ID        run the check of a property against /repo's working tree (VERIF_TIER, VERIF_SEED)
#        check.sh replay F  run a replay file again
#        check.sh setup     build every variant
# Exit status: 0 held, 1 violation, 2 no verdict.
set -u
FILE=$(realpath "${2:-.}" 2>/dev/null)
cd "$(dirname "$0")/harness" || exit 2
V=$(cd .. && pwd)
REPO=/repo
export VERIF_REPO=$REPO
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTDOCFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
HOOK="--cfg rustyalgebra_verif"

group() {
  case $1 in
    C01|C02|C03|C04|C05) echo words ;;
    C06|C07|C08|C09|C10|C11|C12|C13) echo vectors ;;
    C14|C15|C16|C17|C18) echo tensors ;;
    C19|C20|C21) echo series ;;
    C22) echo memory ;;
    C23) echo fields ;;
    C24|C25|C26|C27) echo lie ;;
    C28) echo borrowed ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}
# Cargo notices changes by time stamp only; forget the library's build whenever its content differs.
fresh() { # fresh DIR CLEAN-ARGS...
  local dir=$1; shift
  local now old
  now=$(cd "$REPO" && find Cargo.toml Cargo.lock build.rs src -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
  old=$(cat "$dir/.repo-content" 2>/dev/null)
  if [ "$now" != "$old" ]; then
    [ -d "$dir" ] && cargo "$@" clean -q --offline -p rustyalgebra --target-dir "$dir" >/dev/null 2>&1
    mkdir -p "$dir"
    STAMP="$dir/.repo-content"; STAMP_TEXT=$now
    rm -f "$STAMP"
  else
    STAMP=
  fi
}
stamped() { [ -n "$STAMP" ] && echo "$STAMP_TEXT" > "$STAMP"; return 0; }
# Every binary is built twice: with debug assertions (BIN_PATH) and as shipped, without them or overflow checks (OPT_PATH).
both() { # both CARGO-ARGS...
  cargo "$@" --profile shipped 2>"$LOG.shipped" & local job=$!
  cargo "$@" 2>"$LOG" || { wait $job; return 1; }
  wait $job || { cp "$LOG.shipped" "$LOG"; return 1; }
}
build_plain() { # build_plain BIN
  fresh target/plain
  both build -q --offline --bin "$1" --target-dir target/plain || return 1
  stamped; BIN_PATH=$PWD/target/plain/debug/$1; OPT_PATH=$PWD/target/plain/shipped/$1
}
build_hooks() {
  fresh target/hooks
  RUSTFLAGS="$HOOK" both build -q --offline --features hooks --bin "$1" --target-dir target/hooks || return 1
  stamped; BIN_PATH=$PWD/target/hooks/debug/$1; OPT_PATH=$PWD/target/hooks/shipped/$1
}
build_asan() {
  fresh target/asan +nightly
  RUSTFLAGS="-Zsanitizer=address $HOOK" both +nightly build -q --offline --features hooks --bin "$1" \
    --target x86_64-unknown-linux-gnu --target-dir target/asan || return 1
  local d=$PWD/target/asan/x86_64-unknown-linux-gnu
  stamped; BIN_PATH=$d/debug/$1; OPT_PATH=$d/shipped/$1
}
no_build() { grep -E '^error' -A 12 "$LOG" | head -60 >&2; echo "ERROR: the harness does not build" >&2; exit 2; }

LOG=$(mktemp) || exit 2
trap 'rm -f "$LOG" "$LOG.shipped"' EXIT

prepare() { # prepare GROUP
  case $1 in
    words) build_hooks words || build_plain words || no_build ;;
    lie|borrowed) build_hooks "$1" || no_build ;;
    memory)
      if build_hooks memory; then
        export VERIF_NATIVE=$BIN_PATH
        if build_asan memory; then
          export ASAN_OPTIONS=detect_leaks=0:exitcode=77:hard_rss_limit_mb=3500 VERIF_NO_RLIMIT=1
        else
          BIN_PATH=$VERIF_NATIVE
        fi
      else
        build_plain memory || no_build
        export VERIF_NATIVE=$BIN_PATH
      fi ;;
    *) build_plain "$1" || no_build ;;
  esac
}

case ${1:-} in
  setup)
    for g in words lie borrowed memory vectors tensors series fields; do prepare $g; done ;;
  replay)
    F=$FILE
    ID=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$F") || exit 2
    G=$(group "$ID") || exit 2
    prepare "$G"
    if grep -q '"build": *"unchecked"' "$F"; then BIN_PATH=$OPT_PATH; fi
    "$BIN_PATH" replay "$F"; exit $? ;;
  C*)
    G=$(group "$1") || exit 2
    prepare "$G"
    export VERIF_UNCHECKED=$OPT_PATH
    "$BIN_PATH" check "$1" "$V/evidence/$1.json" "$V/scratch/replay"; exit $? ;;
  *) echo "usage: check.sh ID | replay FILE | setup" >&2; exit 2 ;;
esac
