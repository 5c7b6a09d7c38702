#!/bin/bash
# Builds what the checks need from /repo's current working tree into /verif/build/bin:
#   ripcalc      the plain binary, as the repository builds it
#   ripcalc-mc   the same sources with --cfg ripcalc_mc (in-process server; see server/mc_server.rs)
#   ripcalc-rel, ripcalc-mc-rel   both in the release profile
#   explorer     the explorer (explorer/)
#   inject.so    the fault injector (inject/inject.c)
#   confine.so   the confinement (inject/confine.c)
# Cargo rebuilds by modification time; the content hash below forces a rebuild as well when the
# time stamps do not tell.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${RIPCALC_REPO:-/repo}
B=$V/build
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$B/bin" "$B/log"
exec 9>"$B/lock"
flock 9

hash_of() { (cd "$1" && shift && find "$@" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32); }

# --- the explorer and the injector
H=$(hash_of "$V" explorer/src explorer/Cargo.toml explorer/Cargo.lock inject)
if [ ! -x "$B/bin/explorer" ] || [ ! -f "$B/bin/inject.so" ] || [ ! -f "$B/bin/confine.so" ] || [ "$(cat "$B/explorer.hash" 2>/dev/null)" != "$H" ]; then
  (cd "$V/explorer" && cargo build --release --offline --target-dir "$B/explorer") >"$B/log/explorer" 2>&1 || { cat "$B/log/explorer"; echo "build.sh: the explorer does not build" >&2; exit 3; }
  cp -f "$B/explorer/release/explorer" "$B/bin/explorer.new" && mv -f "$B/bin/explorer.new" "$B/bin/explorer"
  gcc -O2 -shared -fPIC -o "$B/bin/inject.so.new" "$V/inject/inject.c" -ldl && mv -f "$B/bin/inject.so.new" "$B/bin/inject.so" || exit 3
  gcc -O2 -shared -fPIC -o "$B/bin/confine.so.new" "$V/inject/confine.c" && mv -f "$B/bin/confine.so.new" "$B/bin/confine.so" || exit 3
  echo "$H" > "$B/explorer.hash"
fi

# --- ripcalc
H=$( { (cd "$R" && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum); cat "$V/server/mc_server.rs" "$V/build.sh"; } | sha256sum | cut -c1-32)
if [ "$(cat "$B/ripcalc.hash" 2>/dev/null)" = "$H" ] && [ -x "$B/bin/ripcalc" ]; then exit 0; fi
rm -f "$B/ripcalc.hash" "$B/bin/ripcalc" "$B/bin/ripcalc-rel" "$B/bin/ripcalc-mc" "$B/bin/ripcalc-mc-rel" "$B/bin/mc-mode"
cd "$R" || exit 3
# words in the string literals of the sources: names and values that surroundings are given (C21, C28)
grep -rhoE '"([^"\\]|\\.)*"' src 2>/dev/null | grep -oE '[A-Za-z_][A-Za-z0-9_.-]{1,40}' | LC_ALL=C sort -u | head -1500 > "$B/bin/words"
# the sources: values that they mention widen what is enumerated (explorer/src/dict.rs)
find src -name '*.rs' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 cat 2>/dev/null | head -c 4000000 > "$B/bin/source"
fresh() { cargo clean --offline -p ripcalc --target-dir "$1" "${@:2}" >/dev/null 2>&1; }
fresh "$B/plain"
cargo build --offline --locked --bin ripcalc --target-dir "$B/plain" >"$B/log/plain" 2>&1 || { cat "$B/log/plain"; echo "build.sh: ripcalc does not build" >&2; exit 3; }
cp -f "$B/plain/debug/ripcalc" "$B/bin/ripcalc"
fresh "$B/rel" --release
cargo build --offline --locked --release --bin ripcalc --target-dir "$B/rel" >"$B/log/rel" 2>&1 && cp -f "$B/rel/release/ripcalc" "$B/bin/ripcalc-rel"
export RIPCALC_MC_SERVER=$V/server/mc_server.rs
export CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0
mode=exec
mc() { # groups of calls to offer
  fresh "$B/mc"
  local flags="--cfg ripcalc_mc" g
  for g in $1; do flags="$flags --cfg ripcalc_mc_$g"; done
  cargo rustc --offline --locked --bin ripcalc --target-dir "$B/mc" -- $flags >"$B/log/mc" 2>&1 || return 1
  cp -f "$B/mc/debug/ripcalc" "$B/bin/ripcalc-mc"
  mode="cli $1"
}
mc_rel() { # the same in the release profile; only for command lines
  [ "$mode" = exec ] && return
  fresh "$B/mc" --release
  cargo rustc --offline --locked --release --bin ripcalc --target-dir "$B/mc" -- --cfg ripcalc_mc >"$B/log/mc-rel" 2>&1 && cp -f "$B/mc/release/ripcalc" "$B/bin/ripcalc-mc-rel"
}
if ! mc "addr net bits"; then
  # an internal interface has changed: offer what is left of it
  have=""
  for g in addr net bits; do mc "$g" && have="$have $g"; done
  mc "$have" || mc "" || mode=exec
fi
mc_rel
echo "$mode" > "$B/bin/mc-mode"
echo "$H" > "$B/ripcalc.hash"
exit 0
