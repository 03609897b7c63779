#!/bin/bash
# Builds every check (about 12 minutes the first time). Both packages are always selected together, so that they share
# what they are built on; one that doesn't build keeps no other check from being built.
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
exec cargo build --offline -q --keep-going -p checks -p checks_full --bins
