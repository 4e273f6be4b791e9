#!/bin/bash
# Builds what a check needs: build.sh harness|srv|asan|...
# VERIF_REPO (default /repo) is the tree under test; nothing is written there.
set -u
cd "$(dirname "$0")"
VERIF=$PWD
REPO=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
T=$VERIF/target
mkdir -p "$T"
fail() { echo "build failed: $1" >&2; exit 2; }

# content hash of the tree under test, independent of time stamps
stamp() {
  (cd "$REPO" && find bin component cmd_test Cargo.toml Cargo.lock .cargo -type f -not -path '*/target/*' -print0 2>/dev/null |
    sort -z | xargs -0 sha256sum; echo "$REPO $*") | sha256sum | cut -d' ' -f1
}
PKGS="-p rudis -p server -p db -p dict -p common -p pd -p keys -p macros"

for what in "$@"; do
  exec 9>"$T/.lock-$what"
  flock 9
  case $what in
    harness)
      (cd harness && CARGO_TARGET_DIR=$T/harness cargo build --release --offline --locked -q) >"$T/harness.log" 2>&1 ||
        { tail -30 "$T/harness.log" >&2; fail harness; }
      if [ ! -e "$T/clockshim.so" ] || [ shim/clockshim.c -nt "$T/clockshim.so" ]; then
        gcc -O1 -shared -fPIC -o "$T/clockshim.so.tmp" shim/clockshim.c -ldl && mv "$T/clockshim.so.tmp" "$T/clockshim.so" || fail shim
      fi
      ;;
    srv)
      S=$(stamp dev1)
      if [ "$(cat "$T/srv.stamp" 2>/dev/null)" != "$S" ] || [ ! -x "$T/srv/debug/server" ]; then
        export CARGO_TARGET_DIR=$T/srv CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
        # replaced files keep arbitrary time stamps: never trust them
        [ -d "$T/srv" ] && (cd "$REPO" && cargo clean --offline -q $PKGS) >/dev/null 2>&1
        rm -f "$T/srv.stamp"
        (cd "$REPO" && cargo build --offline --locked -q --bin server --bin pd) >"$T/srv.log" 2>&1 ||
          { grep -E '^error' -A8 "$T/srv.log" | head -40 >&2; fail srv; }
        echo "$S" >"$T/srv.stamp"
      fi
      ;;
    asan|tsan|miri)
      # these crates name /repo
      S=$( (cat san/Cargo.* san/src/* miri/Cargo.* miri/src/*; stamp san2) | sha256sum)
      if [ "$(cat "$T/$what.stamp" 2>/dev/null)" != "$S" ]; then
        rm -f "$T/$what.stamp"
        # replaced files keep arbitrary time stamps: never trust them
        [ -d "$T/$what" ] && for n in server db dict common pd keys macros san mirirun; do
          find "$T/$what" -maxdepth 4 -path '*/.fingerprint/*' -name "$n-*" -exec rm -r {} +
        done
        export CARGO_TARGET_DIR=$T/$what
        X=x86_64-unknown-linux-gnu
        case $what in
          asan) (cd san && RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Awarnings" \
              cargo +stable build --offline --locked -q --target $X) ;;
          tsan) (cd san && RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=thread -Awarnings" \
              cargo +stable build --offline --locked -q -Zbuild-std --target $X) ;;
          miri) (cd miri && MIRI_LIMIT=0 RUSTFLAGS=-Awarnings cargo +nightly miri run --offline --locked -q) ;;
        esac >"$T/$what.log" 2>&1 || { grep -E '^error' -A8 "$T/$what.log" | head -40 >&2; fail "$what"; }
        echo "$S" >"$T/$what.stamp"
      fi
      ;;
    *) fail "unknown target $what" ;;
  esac
  exec 9>&-
done
