#!/bin/bash
# usage: check.sh ID quick|thorough     run one check
#        check.sh replay FILE           re-execute a recorded violation
#        check.sh show < wikitext       print what ftml makes of a document
#        check.sh ref < wikitext        print what the reference parser makes of it
cd "$(dirname "$0")" || exit 2
. ./env.sh
export MC_VERIF="$PWD"
log=$(mktemp)
if ! cargo build --release --offline --quiet --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "ERROR: the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
case "$1" in
    build) exit 0 ;;
    replay|show|ref|list) exec mc/target/release/mc "$@" ;;
    *) exec mc/target/release/mc check "$@" ;;
esac
