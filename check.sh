#!/bin/bash
# usage: check.sh <property> [quick|thorough] [extra mc flags...]   |   check.sh replay FILE
# Rebuilds the model checker from /repo's working tree and decides one property.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GONOSUMDB=* GOFLAGS
VERIF=$(cd "$(dirname "$0")" && pwd)
export VERIF
T=$(mktemp -d /tmp/mcXXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
# modules are built from a private copy of the module files so that committed files never change
cp -r "$VERIF/mc" "$T/src" || exit 2
cd "$T/src" || exit 2
go build -o "$T/mc" . & p1=$!
go build -tags purego -o "$T/mc-purego" . & p2=$!
wait $p1 || { echo "build failed" >&2; exit 2; }
wait $p2 || { echo "purego build failed" >&2; exit 2; }
sched() {
    # the library under the controlled scheduler, without and with the race detector
    mkdir "$T/ov" && "$T/mc" rewrite "$T/ov" || { echo "rewriting failed" >&2; exit 2; }
    go build -overlay "$T/ov/overlay.json" -tags purego -o "$T/mc-sched" . & p1=$!
    go build -race '-gcflags=verifmc/vsched/...=-race=false -l' -overlay "$T/ov/overlay.json" -tags purego -o "$T/mc-race" . & p2=$!
    wait $p1 || { echo "scheduler build failed" >&2; exit 2; }
    wait $p2 || { echo "race build failed" >&2; exit 2; }
}
if [ "$1" = build ]; then
    sched
    exit 0
fi
mkdir "$T/scratch"
if [ "$1" = replay ]; then
    grep -q '"backend": "\(sched\|race\)"' "$2" && sched
    "$T/mc" replay -purego "$T/mc-purego" "$2"
    exit $?
fi
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
LEVEL=model_checking
case $PROP in
    C02|C03|C06|C30|C31) LEVEL=exploration ;;
    C17) LEVEL=fault_enumeration ;;
esac
case $PROP in
    C14|C15|C23) sched ;;
esac
cd "$VERIF" || exit 2
"$T/mc" check -prop "$PROP" -tier "$TIER" -level "$LEVEL" -purego "$T/mc-purego" -scratch "$T/scratch" -verif "$VERIF" "$@"
