#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export YMON_VERIF="$PWD"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$tier"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
# cargo decides by time stamps; decide by content.
stamp="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
mkdir -p harness/target
exec 9>harness/target/.lock
flock 9
if [ "$(cat harness/target/.stamp 2>/dev/null)" != "$stamp" ]; then
  rm -f "$PWD/harness/target/.stamp"
  (cd harness && cargo clean -q --release --offline -p yaml-subset 2>/dev/null)
fi
if ! (cd harness && cargo build --release --offline) >harness/target/build.log 2>&1; then
  cat harness/target/build.log >&2
  echo "check.sh: the harness does not build" >&2
  exit 2
fi
echo "$stamp" >harness/target/.stamp
if [ "$id" = C25 ] && [ -z "${YMON_NO_SANITIZERS:-}" ]; then
  # The same harness for the sanitizers; without one of them the check goes on and says so.
  san() { # name, target dir, command...
    local dir="$PWD/harness/target-$1"; shift
    if [ "$(cat "$dir/.stamp" 2>/dev/null)" != "$stamp" ]; then
      rm -f "$dir/.stamp"
      find "$dir" -path '*/.fingerprint/yaml-subset-*' -name 'lib-*' -delete 2>/dev/null
    fi
    mkdir -p "$dir"
    if (cd harness && CARGO_TARGET_DIR="$dir" timeout 400 "$@") >"$dir.log" 2>&1; then
      echo "$stamp" >"$dir/.stamp"
    else
      tail -n 5 "$dir.log" >&2
      return 1
    fi
  }
  T=x86_64-unknown-linux-gnu
  san tsan env RUSTFLAGS=-Zsanitizer=thread cargo +nightly build -Zbuild-std --release --offline --target $T & p1=$!
  san asan env RUSTFLAGS=-Zsanitizer=address cargo +nightly build --release --offline --target $T & p2=$!
  san miri cargo +nightly miri run --manifest-path miri/Cargo.toml --offline -q -- list & p3=$!
  wait $p1 && export YMON_TSAN="$PWD/harness/target-tsan/$T/release/ymon"
  wait $p2 && export YMON_ASAN="$PWD/harness/target-asan/$T/release/ymon"
  wait $p3 && export YMON_MIRI="$PWD/harness/target-miri"
fi
flock -u 9
exec 9>&-
exec harness/target/release/ymon check "$id" "$tier"
