#!/bin/bash
# check.sh ID [--only CASE]: rebuilds the monitors against /repo's working tree and runs the property's check.
# Exit 0: held on everything observed. 1: VIOLATION line. Anything else: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
work=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'chmod -R u+rwx "$work" 2>/dev/null; rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
cd "$here/harness" || exit 2
race=
case " $(grep -o "^$id .*" "$here/harness/NEEDS" 2>/dev/null) " in *" race "*) race=-race ;; esac
go build -modfile="$work/go.mod" $race -o "$work/vmon" . || { echo "the monitors do not build"; exit 2; }
case " $(grep -o "^$id .*" "$here/harness/NEEDS" 2>/dev/null) " in *" cli "*)
	go build -modfile="$work/go.mod" -o "$work/cddlc" github.com/HannesKimara/cddlc/cmd/cddlc || { echo "the command does not build"; exit 2; }
	export VMON_CLI="$work/cddlc" ;;
esac
case " $(grep -o "^$id .*" "$here/harness/NEEDS" 2>/dev/null) " in *" ports "*)
	port() { # NAME PACKAGE SETTINGS...: a build for another platform; the monitor judges a failure
		local out=$work/$1 pkg=$2
		shift 2
		mkdir -p "${out%/*}"
		env "$@" go build -modfile="$work/go.mod" ${flags:+"$flags"} -o "$out" "$pkg" 2>"$out.err" || rm -f "$out"
	}
	cmd=github.com/HannesKimara/cddlc/cmd/cddlc flags=
	go build -modfile="$work/go.mod" -o "$work/port-native" ./portable || { echo "the monitors do not build"; exit 2; }
	port port-386 ./portable GOARCH=386 &
	port port-v3 ./portable GOAMD64=v3 &
	port port-wasm ./portable GOOS=js GOARCH=wasm &
	flags='-gcflags=github.com/HannesKimara/cddlc/...=-N -l' port port-plain ./portable &
	port 386/cddlc $cmd GOARCH=386 &
	port windows/cddlc.exe $cmd GOOS=windows GOARCH=amd64 &
	wait
	export VMON_PORTS="$work" VMON_GOROOT="$(go env GOROOT)" ;;
esac
mkdir "$work/run"
cd "$work/run" || exit 2
VMON_BASE="$work/run" VMON_VERIF="$here" "$work/vmon" check "$id" "$@"
