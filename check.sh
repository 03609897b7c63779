#!/bin/bash
# ./check.sh ID [--thorough] [--replay FILE] [--leg NAME] [--scale F]: builds the check of one property against /repo's
# working tree and runs it.
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
export VERIF_DIR=$(cd .. && pwd)
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
log=$(mktemp)
if ! cargo build --offline -q -p checks -p checks_full --bin "$bin" > "$log" 2>&1; then
    tail -n 60 "$log" >&2
    rm -f "$log"
    echo "ERROR: the check of $id does not build" >&2
    exit 2
fi
rm -f "$log"
exec ./target/debug/"$bin" "$@"
