#!/bin/bash
# Builds the harness once, with and without the race detector, so that the checks find a warm build cache.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/.build" "$here/evidence"
cd "$here/harness" && go build -o "$here/.build/harness" . && go build -race -o "$here/.build/harness.race" .
