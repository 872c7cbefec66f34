#!/bin/bash
# check.sh <property> [harness flags]: builds the harness against /repo's working tree and runs one
# property's monitor. Exit 0 held, 1 violated (VIOLATION line), 3 inconclusive or broken.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1
GO=/usr/local/bin/go1.27.3
flags=()
case $id in
C07 | C10 | C15 | C24 | C28 | C38) flags+=(-race) ;;
C30) flags+=(-race -tags extended) ;;
esac
tmp=$(mktemp -d /tmp/waterverif-build.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/harness/go.mod" "$tmp/h.mod" && cp "$here/harness/go.sum" "$tmp/h.sum" || exit 3
export GOFLAGS="-mod=mod -modfile=$tmp/h.mod"
if ! (cd "$here/harness" && $GO build "${flags[@]}" -o "$tmp/wv" .); then
	echo "ERROR: the harness does not build against /repo"
	exit 3
fi
"$tmp/wv" -prop "$id" -verif "$here" "$@"
exit $?
