#!/bin/bash
# check.sh ID            decide one property on /repo's current tree
# check.sh -thorough ID  the same, with every optional cross-check
# check.sh -setup        build the checker
# check.sh all           decide every property
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
bin=$PWD/.bin
mkdir -p "$bin" evidence
tmp=$(mktemp "$bin/checker.XXXXXX") || exit 2
if ! (cd checker && go build -buildvcs=false -o "$tmp" .); then
	rm -f "$tmp"
	echo "the checker does not build" >&2
	exit 2
fi
chmod +x "$tmp" && mv -f "$tmp" "$bin/checker" || exit 2
if [ "$1" = -setup ]; then
	# warm the caches the checks use
	exit 0
fi
tier=${VERIF_TIER:-quick}
if [ "$1" = -thorough ]; then
	tier=thorough
	shift
fi
exec "$bin/checker" -repo "${VERIF_REPO:-/repo}" -out "$PWD/evidence" -known "$PWD/known_findings.txt" -tier "$tier" "$@"
