#!/bin/bash
# usage: run.sh check <property> <quick|thorough>   decide one property on /repo's working tree
#        run.sh replay <file>                       run a recorded counterexample against the compiled code
#        run.sh list <property>                     list the jobs of a property
# Everything is built from source into a scratch directory that is removed at the end.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GO111MODULE=on GOWORK=off
export GOCACHE="${GOCACHE:-$(go env GOCACHE)}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/zsszverif.XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
cmd="${1:-}"; shift || true
(cd "$here/engine" && go build -o "$scratch/engine" .) || { echo "building the engine failed" >&2; exit 2; }
case "$cmd" in
check)
	prop="$1"; tier="${2:-quick}"
	mkdir -p "$here/evidence" "$here/replays"
	find "$here/replays" -maxdepth 1 -name "$prop-*.json" -delete
	"$scratch/engine" -harness "$here/harness" -tmp "$scratch" -prop "$prop" -tier "$tier" \
		-known "$here/known_findings.txt" -replays "$here/replays" -evidence "$here/evidence/$prop.json"
	;;
replay)
	"$scratch/engine" -harness "$here/harness" -tmp "$scratch" -replay "$1"
	;;
list)
	"$scratch/engine" -harness "$here/harness" -tmp "$scratch" -prop "$1" -tier thorough -list
	;;
*)
	sed -n 2,5p "$0" >&2; exit 2 ;;
esac
