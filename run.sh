#!/bin/bash
# Runs the check of one property: bash run.sh PROPERTY [TIER].
#
# Exit code 0: held on everything observed; 1: violated (a line "VIOLATION property=... replay=..." says where);
# 3: no answer (the code under test or the monitor does not build, or too little was observed).
# VERIF_REPLAY=FILE runs only the case of a replay file.
set -u
id=${1:?property}
dir=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$dir VERIF_REPO=/repo VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}

export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off GOPROXY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}

bin=$(mktemp -d /tmp/verif-monitor.XXXXXXXX) || exit 3
trap 'rm -rf -- "$bin"' EXIT

build() {
	if ! (cd "$dir/harness" && go build "$@" .) >"$bin/log" 2>&1; then
		echo "INCONCLUSIVE property=$id the monitor does not build against the tree:"
		head -40 "$bin/log"
		exit 3
	fi
}

case $id in
H06)
	# the trie is internal: a probe package is overlaid in the tree, at build time only
	printf '{"Replace":{"/repo/wordbreak/hyphenator/verifprobe/verifprobe.go":"%s/harness/probe/verifprobe.go.txt"}}\n' "$dir" >"$bin/overlay.json"
	build -tags trieprobe -overlay "$bin/overlay.json" -o "$bin/monitor"
	;;
C*)
	build -o "$bin/monitor"
	CGO_ENABLED=1 build -race -o "$bin/monitor-race"
	export MON_RACE_BIN=$bin/monitor-race
	;;
*)
	build -o "$bin/monitor"
	;;
esac

"$bin/monitor" "$id"
