#!/bin/bash
# run.sh ID TIER: builds the harness against /repo's working tree and decides property ID.
# run.sh replay ID TIER SPACE CHOICES: re-runs one recorded path.
set -u
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VF_REPO:-/repo}
export VF_VERIF=$V VF_REPO=$REPO
W=$(mktemp -d /tmp/vf-run.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
chmod 711 "$W" # the commands under test run as an unprivileged user
umask 022
export VF_WORK=$W
cp -r "$V/harness" "$W/h" || exit 2
cd "$W/h" || exit 2
sed -i "s#=> /repo#=> $REPO#" go.mod
# As the repository's own build does: if asn1.y is edited and y.go is the original one, goyacc's output stands in.
OV=
same() { [ -f /opt/vp/base/$1.sha256 ] && [ "$(sha256sum < "$REPO/$1")" = "$(cat /opt/vp/base/$1.sha256)" ]; }
if [ -f "$REPO/asn1.y" ] && ! same asn1.y && same y.go && [ -x /opt/vp/bin/goyacc ]; then
  (cd "$REPO" && /opt/vp/bin/goyacc -o "$W/y.go" -v "$W/y.output" asn1.y >&2) || echo 'package asn1go; goyacc failed' > "$W/y.go"
  echo "{\"Replace\": {\"$REPO/y.go\": \"$W/y.go\"}}" > "$W/overlay.json"
  OV="-overlay=$W/overlay.json"
fi
export VF_OVERLAY=${OV#-overlay=}
go build $OV -o "$W/vf" . >&2 || { echo "build failed" >&2; exit 2; }
VF=$W/vf
case "$*" in C08\ *|replay\ C08\ *)
  # Schedules run on the library instrumented with scheduling points; the race detector on the plain library.
  mkdir "$W/inst" && "$W/vf" sub instrument "$W/inst" || { echo "instrumentation failed" >&2; exit 2; }
  go build -race $OV -o "$W/vf-race" . >&2 && export VF_RACE=$W/vf-race &
  go build -tags verifsched -overlay="$W/inst/overlay.json" -o "$W/vf-sched" . >&2 || { echo "build of instrumented library failed" >&2; exit 2; }
  wait; [ -x "$W/vf-race" ] && export VF_RACE=$W/vf-race
  VF=$W/vf-sched;;
esac
case "$*" in C17\ *|C19\ *|replay\ C17\ *|replay\ C19\ *)
  go build $OV -o "$W/asn1go" github.com/chemikadze/asn1go/cmd/asn1go >&2 && go build $OV -o "$W/ws2bin" github.com/chemikadze/asn1go/cmd/ws2bin >&2 || { echo "build failed" >&2; exit 2; }
  export VF_ASN1GO=$W/asn1go VF_WS2BIN=$W/ws2bin;;
esac
if [ "$1" = setup ]; then "$W/vf" list; exit 0; fi
if [ "$1" = replay ]; then shift; "$VF" one "$@"; exit $?; fi
"$VF" check "$1" "$2"
