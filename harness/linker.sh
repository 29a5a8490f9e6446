#!/bin/bash
# The linker, without the arguments that stand for the absent OpenSSL when it
# is the harness or the program for the end-to-end check that is linked: these
# have stand-ins, of their own or from a separate object.
mine=
for a; do case "$a" in */deps/vh-*) mine=vh;; */deps/cernan_e2e-*) mine=e2e;; esac; done
[ -n "$mine" ] || exec cc "$@"
args=()
for a; do
    case "$a" in @*openssl-absent.args) ;; *) args+=("$a");; esac
done
[ $mine = e2e ] && args+=("$CARGO_TARGET_DIR/stubs.o")
exec cc "${args[@]}"
