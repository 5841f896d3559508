#!/bin/bash
# check.sh PROPERTY [quick|thorough]  - build the monitors against /repo's working tree and decide one property.
set -u
cd "$(dirname "$0")"
VERIF_DIR=$(pwd); export VERIF_DIR
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
export VERIF_SEED=${VERIF_SEED:-1}
work=$(mktemp -d /tmp/vcheck-$prop-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export VH_SCRATCH=$work TMPDIR=$work
mkdir -p "$work/tmp"
kind=$(python3 tools/props.py kind "$prop") || { echo "unknown property $prop" >&2; exit 2; }
case $kind in
go)   ( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -o "$work/vh" . ) || exit 2
      "$work/vh" check "$prop" "$tier"; exit $? ;;
race) ( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -race -o "$work/vh" . ) || exit 2
      GORACE="halt_on_error=1 exitcode=66" "$work/vh" check "$prop" "$tier"; exit $? ;;
sim)  ( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -o "$work/vh" . ) || exit 2
      ( cd /repo/SmartCache/sim && "$GO" build -o "$work/simbin" . ) || exit 2
      SIM_BIN=$work/simbin "$work/vh" check "$prop" "$tier"; exit $? ;;
simrace) ( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -o "$work/vh" . ) || exit 2
      ( cd /repo/SmartCache/sim && "$GO" build -o "$work/simbin" . && "$GO" build -race -o "$work/simrace" . ) || exit 2
      SIM_BIN=$work/simbin SIM_RACE_BIN=$work/simrace "$work/vh" check "$prop" "$tier"; exit $? ;;
old)  # qLearning_smartCache is not part of a module: overlay its packages into the harness
      python3 - /repo/qLearning_smartCache "$PWD/harness/old" >"$work/overlay.json" <<'PY'
import json, os, sys
src, dst = sys.argv[1:]
rep = {}
for d, _, fs in os.walk(src):
    for f in fs:
        if f.endswith(".go") and not f.endswith("_test.go") and d != src:
            rep[os.path.join(dst, os.path.relpath(d, src), f)] = os.path.join(d, f)
print(json.dumps({"Replace": rep}))
PY
      ( cd harness && GOFLAGS="-mod=readonly -buildvcs=false" "$GO" build -tags old -overlay "$work/overlay.json" -o "$work/vh" . ) || exit 2
      "$work/vh" check "$prop" "$tier"; exit $? ;;
py)   python3 pyharness/pcheck.py check "$prop" "$tier"; exit $? ;;
*)    exit 2 ;;
esac
