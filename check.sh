#!/bin/bash
# usage: check.sh <property> [--replay FILE] [other options of ckv]
# Builds the harness against /repo's working tree (CKV_REPO overrides it while developing) and runs one check.
# Exit: 0 held, 1 violation, 2 the check itself could not run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property id}; shift
args=()
while [ $# -gt 0 ]; do
  case $1 in
    --replay) args+=(-replay "$(realpath "$2")"); shift 2;;
    *) args+=("$1"); shift;;
  esac
done
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
repo=${CKV_REPO:-/repo}
work=$(mktemp -d /tmp/ckv-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod" && cp "$here/harness/go.sum" "$work/go.sum" || exit 2
export CKV_MODFILE=$work/go.mod CKV_REPO=$repo CKV_HARNESS=$here/harness
cd "$here/harness" || exit 2
mkdir -p "$work/run"
case $prop in
  C29)
    # a net package with listeners that can be replaced, for a server in virtual time
    goroot=/opt/veriftools/go1.25.14
    export PATH=$goroot/bin:$PATH
    sed 's/^func (lc \*ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {$/&\n\tif f := VerifListen; f != nil {\n\t\treturn f(network, address)\n\t}/' $goroot/src/net/dial.go > "$work/dial.go" || exit 2
    printf '\n// VerifListen takes the place of the network.\nvar VerifListen func(network, address string) (Listener, error)\n' >> "$work/dial.go"
    echo "{\"Replace\":{\"$goroot/src/net/dial.go\":\"$work/dial.go\"}}" > "$work/net.json"
    go test -c -tags ckvnet -overlay "$work/net.json" -modfile="$work/go.mod" -o "$work/ckv" ./props || exit 2
    ;;
  C18|C19|C20)
    export PATH=/opt/veriftools/go1.25.14/bin:$PATH
    go test -c -modfile="$work/go.mod" -o "$work/ckv" ./props || exit 2
    ;;
  C21|C28)
    go build -race -modfile="$work/go.mod" -o "$work/ckv" ./cmd/ckv || exit 2
    ;;
  C23|C25|C27|C32|C33|C36)
    mkdir -p "$work/bin"
    (cd "$repo" && go build -o "$work/bin/" ./cmd/cacheproxy ./cmd/ckubecli ./cmd/ckube-plugin) || exit 2
    go build -modfile="$work/go.mod" -o "$work/ckv" ./cmd/ckv || exit 2
    export CKV_BIN=$work/bin
    ;;
  *)
    go build -modfile="$work/go.mod" -o "$work/ckv" ./cmd/ckv || exit 2
    ;;
esac
"$work/ckv" -property "$prop" -verif "$here" -workdir "$work/run" "${args[@]}"
exit $?
