#!/bin/bash
# check.sh <property> <tier>: builds the analyzer when needed, then decides the property.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_TIER=${2:-quick}
bin=$here/bin/vcol
build() {
	mkdir -p "$here/bin"
	(cd "$here/analyzer" && GOFLAGS=-mod=vendor GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin")
}
if [ "$1" = build ]; then
	build
	exit
fi
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -newer "$bin" -name '*.go' -print -quit 2>/dev/null)" ]; then
	build || exit 2
fi
exec "$bin" check "$1" --repo=/repo --verif="$here" --tier="$VERIF_TIER"
