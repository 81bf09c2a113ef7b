#!/bin/bash
# check.sh ID [quick|thorough] [vp check options]
# Builds the harness against the library's current working tree and decides ID.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export VERIF_DIR="$here"
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vpbuild.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
sed "s#=> /repo\$#=> $repo#" "$here/harness/go.mod" > "$tmp/go.mod"
cp "$here/harness/go.sum" "$tmp/go.sum"
race=
[ "$id" = C30 ] && race=-race
if ! (cd "$here/harness" && go build $race -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/vp" . ) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "check.sh: the harness does not build against $repo" >&2
  exit 2
fi
fuzz=()
case " C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C16 C19 C22 C27 C32 " in *" $id "*)
  if [ "$tier" = thorough ]; then
    if (cd "$here/harness" && go test -c -fuzz=FuzzRaw -buildvcs=false -modfile="$tmp/go.mod" -o "$tmp/fuzzbin" . ) >"$tmp/fuzz.log" 2>&1; then
      fuzz=(-fuzzbin "$tmp/fuzzbin")
    else
      cat "$tmp/fuzz.log" >&2
      echo "check.sh: no fuzzing binary; going on without" >&2
    fi
  fi;;
esac
"$tmp/vp" check -id "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" "${fuzz[@]}" "$@"
