#!/bin/bash
# Prebuilds the harness (plain and race-detector) so that the checks start fast.
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vpsetup.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
sed "s#=> /repo\$#=> $repo#" "$here/harness/go.mod" > "$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/go.sum"
cd "$here/harness"
go build -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/vp" .
go build -race -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/vprace" . || echo "setup: no race-detector build" >&2
"$tmp/vp" list >/dev/null
