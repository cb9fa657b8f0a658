#!/bin/bash
# Parses the specifications and builds the harness once, so that a broken toolchain is seen here and not in a check.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=0
d=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
rc=0
cp -r harness "$d/h" && (cd "$d/h" && go build -o "$d/vdrv" .) || rc=1
for f in spec/*.tla; do
	(cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")") > "$d/out" 2>&1 || { cat "$d/out"; rc=1; }
done
rm -rf "${d:?}"

exit $rc
