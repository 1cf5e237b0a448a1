#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decides one property on /repo's current tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
repo="${VERIF_REPO:-/repo}"
mkdir -p "$here/evidence"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
bin="$here/checker/.bin/checker"
if ! (cd "$here/checker" && mkdir -p .bin && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") >"$here/evidence/build.log" 2>&1; then
  cat "$here/evidence/build.log"
  echo "VIOLATION property=$prop replay=$here/evidence/build.log the checker does not build"
  exit 1
fi
rm -f "$here/evidence/$prop.json"
"$bin" -repo "$repo" -property "$prop" -tier "$tier" -evidence "$here/evidence/$prop.json" -known "$here/known_findings.txt"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$prop replay=$here/evidence/$prop.json the analysis stopped (exit $rc)"
  rc=1
fi
exit $rc
