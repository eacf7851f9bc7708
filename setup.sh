#!/bin/bash
# Nothing is kept between runs, so this only shows that the harness builds from the committed files.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/ckv-setup-XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/"
cd "$here/harness"
go build -modfile="$work/go.mod" -o "$work/ckv" ./cmd/ckv
echo "harness builds"
