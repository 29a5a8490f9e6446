#!/bin/bash
# Build the harness against /repo's current working tree.
# The dependencies compiled by /opt/vp/build.sh are reused when they are there;
# otherwise everything is built from the vendored sources.
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.39.0
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
unset RUSTC RUSTC_WRAPPER RUSTFLAGS
ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$ROOT/target}"
mkdir -p "$CARGO_TARGET_DIR/cargo-home0"
# cargo writes in its home: use one of our own with the same configuration
cp /opt/vp/cargo-home/config "$CARGO_TARGET_DIR/cargo-home0/config"
export CARGO_HOME="$CARGO_TARGET_DIR/cargo-home0"
exec 9>"$CARGO_TARGET_DIR/.vlock"
flock 9
if [ ! -e "$CARGO_TARGET_DIR/debug/.seeded" ]; then
    if [ -d /repo/target/debug/deps ]; then
        mkdir -p "$CARGO_TARGET_DIR/debug"
        for d in deps build .fingerprint; do
            cp -a "/repo/target/debug/$d" "$CARGO_TARGET_DIR/debug/"
        done
    fi
    touch "$CARGO_TARGET_DIR/debug/.seeded" 2>/dev/null || { mkdir -p "$CARGO_TARGET_DIR/debug"; touch "$CARGO_TARGET_DIR/debug/.seeded"; }
fi
# Never trust file times of the code under test: rebuild it whenever the
# content of its sources differs from what was last built here.
SUM="$(cd /repo && find src resources build.rs Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)"
if [ "$(cat "$CARGO_TARGET_DIR/.cernan-sum" 2>/dev/null)" != "$SUM" ]; then
    rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/cernan-* "$CARGO_TARGET_DIR"/debug/.fingerprint/vh-*
fi
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER="$ROOT/harness/linker.sh"
cd "$ROOT/harness" || exit 2
if [ ! "$CARGO_TARGET_DIR/stubs.o" -nt src/stubs.rs ]; then
    rustc --edition 2018 --crate-type lib --crate-name stubs --emit obj -C opt-level=1 \
        -C panic=abort src/stubs.rs -o "$CARGO_TARGET_DIR/stubs.o" > "$CARGO_TARGET_DIR/stubs.log" 2>&1 \
        || { cat "$CARGO_TARGET_DIR/stubs.log" >&2; exit 2; }
fi
b() {
    cargo build --offline --bin vh --bin cernan-e2e
}
LOG="$CARGO_TARGET_DIR/build.log"
b > "$LOG" 2>&1; rc=$?
[ $rc -eq 0 ] && { echo "$SUM" > "$CARGO_TARGET_DIR/.cernan-sum"; exit 0; }
if ! grep -q "failed to calculate checksum" "$LOG"; then cat "$LOG" >&2; exit 2; fi
# The vendored copy of matrixmultiply lacks files its checksum list names, so
# cargo refuses to compile it anew: use a vendor directory without that list.
if [ ! -d "$CARGO_TARGET_DIR/cargo-home" ]; then
    mkdir -p "$CARGO_TARGET_DIR/vendor" "$CARGO_TARGET_DIR/cargo-home"
    cp -a /opt/vp/vendor/. "$CARGO_TARGET_DIR/vendor/"
    python3 - "$CARGO_TARGET_DIR" <<'P'
import json,os,sys
t=sys.argv[1]
for d in os.listdir(t+'/vendor'):
    p=t+'/vendor/'+d+'/.cargo-checksum.json'
    if os.path.exists(p):
        j=json.load(open(p))
        f={k:v for k,v in j['files'].items() if os.path.exists(t+'/vendor/'+d+'/'+k)}
        if f!=j['files']:
            j['files']=f; json.dump(j,open(p,'w'))
c=open('/opt/vp/cargo-home/config').read().replace('/opt/vp/vendor',t+'/vendor')
open(t+'/cargo-home/config','w').write(c)
P
fi
export CARGO_HOME="$CARGO_TARGET_DIR/cargo-home"
b || exit 2
echo "$SUM" > "$CARGO_TARGET_DIR/.cernan-sum"
