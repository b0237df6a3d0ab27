#!/bin/bash
# usage: checks/run.sh PROPERTY [quick|thorough]
# Builds the checker from /verif/checker and decides one property of /repo's
# current source.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
verif=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
[ -w "$(dirname "$GOCACHE")" ] || export GOCACHE=$(mktemp -d)
bin=$verif/bin/gevcheck
fail() {
	mkdir -p "$verif/evidence/replay"
	echo "$1" > "$verif/evidence/replay/$id.txt"
	echo "  $1"
	echo "VIOLATION property=$id replay=$verif/evidence/replay/$id.txt"
	exit 1
}
mkdir -p "$verif/bin"
(cd "$verif/checker" && go build -o "$bin" .) || fail "the checker does not build"
cd "$verif" || exit 2
out=$(GEVVERIF=$verif timeout 800 "$bin" "$id" "$tier" 2>&1)
rc=$?
echo "$out"
case $rc in
0|1) exit $rc ;;
*) fail "the checker gave no answer (exit $rc)" ;;
esac
