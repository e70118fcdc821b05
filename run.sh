#!/bin/bash
# run.sh PROPERTY TIER [vfcheck flags]: build the harness against /repo's
# working tree and decide the property.
set -u
PROP=$1; TIER=${2:-quick}; shift; shift || true
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VF_REPO:-/repo}
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXX") || exit 2
trap 'chmod -R u+w "$SCRATCH" 2>/dev/null; rm -rf "$SCRATCH"' EXIT
export GO111MODULE=off GOENV=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off CGO_ENABLED=1
export GOCACHE=${VF_GOCACHE:-$ROOT/.cache/go}
mkdir -p "$GOCACHE" "$SCRATCH/gp/src/github.com/johnnadratowski"
ln -s "$REPO" "$SCRATCH/gp/src/github.com/johnnadratowski/golang-neo4j-bolt-driver"
export GOPATH=$ROOT/gopath:$SCRATCH/gp
unset VF_REPO
build() { # name, flags...
  local out=$1; shift
  (cd "$ROOT/gopath/src/vf" && go build "$@" -o "$out" vf/cmd/vfcheck) || { echo "BUILD FAILED" >&2; exit 2; }
}
build "$SCRATCH/plain"
NEEDS=$("$SCRATCH/plain" -property "$PROP" -needs)
case " $NEEDS " in *" race "*) build "$SCRATCH/race" -race;; esac
case " $NEEDS " in *" rec "*)
  printf '{"Replace":{"%s":"%s"}}' "$SCRATCH/gp/src/github.com/johnnadratowski/golang-neo4j-bolt-driver/zz_vf_recorder.go" "$ROOT/overlay/zz_vf_recorder.go" >"$SCRATCH/overlay.json"
  build "$SCRATCH/rec" -tags vfrec -overlay "$SCRATCH/overlay.json";;
esac
cd "$SCRATCH" || exit 2
"$SCRATCH/plain" -property "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -plain "$SCRATCH/plain" -race "$SCRATCH/race" -rec "$SCRATCH/rec" -scratch "$SCRATCH" -root "$ROOT" "$@"
exit $?
