#!/bin/bash
# run.sh ID [ID...]: decide the given properties on /repo's current source.
# Builds the analyzer from the committed files when its binary is missing or stale.
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
export GOCACHE=${LOCHK_GOCACHE:-$V/.cache/gobuild}
mkdir -p "$V/.bin" "$GOCACHE"
stamp=$(cat analyzer/*.go analyzer/go.mod analyzer/go.sum | sha256sum | cut -d' ' -f1)
if [ ! -x .bin/lochk ] || [ "$(cat .bin/stamp 2>/dev/null)" != "$stamp" ]; then
  (cd analyzer && go build -o "$V/.bin/lochk.tmp.$$" .) || { echo "run.sh: the analyzer does not build" >&2; exit 2; }
  mv "$V/.bin/lochk.tmp.$$" "$V/.bin/lochk"
  echo "$stamp" > "$V/.bin/stamp"
fi
[ "$1" = "--build" ] && exit 0
exec "$V/.bin/lochk" -repo /repo -verif "$V" -prop "$(IFS=,; echo "$*")"
