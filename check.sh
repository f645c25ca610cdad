#!/bin/bash
# usage: check.sh CHECK [SCENARIO...]
# Builds the library from REPO's working tree (default /repo), with schedule perturbation woven into it and the race
# detector on, and runs one check against it. VERIF_SEED and VERIF_TIER are those of the task.
set -u
export VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
REPO=${REPO:-/repo}
tmp=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$VERIF_DIR/harness" || exit 3
sed "s#=> /repo\$#=> $REPO#" go.mod > "$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 3
go build -modfile "$tmp/go.mod" -o "$tmp/instr" ./cmd/instr || exit 3
"$tmp/instr" -repo "$REPO" -out "$tmp" || exit 3
go build -race -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -o "$tmp/vh" ./cmd/vh || exit 3
[ "${1:-}" = build ] && exit 0
if [ "${1:-}" = C31 ]; then # the chat program as users build it
	(cd "$REPO" && GOFLAGS=-mod=readonly go build -buildvcs=false -o "$tmp/chat" ./cmd/chat) || exit 3
	export VH_CHAT="$tmp/chat"
fi
export VH_SITES=$(tr -cd , < "$tmp/sites.json" | wc -c)
export TMPDIR="$tmp"
ulimit -n 16384 2>/dev/null
"$tmp/vh" "$@"
