#!/bin/bash
# setup.sh - warm the build caches the checks use (nothing is downloaded, nothing is kept but Go's build cache).
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
work=$(mktemp -d /tmp/vsetup-XXXXXX)
trap 'rm -rf "$work"' EXIT
( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -o "$work/vh" . )
( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -race -o "$work/vhr" . )
( cd /repo/SmartCache/sim && "$GO" build -o "$work/simbin" . )
( cd /repo/SmartCache/sim && "$GO" build -race -o "$work/simrace" . )
mkdir -p evidence replays
"$work/vh" list all >/dev/null
