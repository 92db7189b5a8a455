#!/bin/bash
# bash run.sh Cxx [--case N]   runs the check of one property against /repo's working tree
# bash run.sh --build          builds once, to fill the build cache
set -u
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: run.sh PROPERTY [--case N]}
shift
case_arg=()
if [ "${1:-}" = "--case" ]; then case_arg=(-case "$2"); fi
scratch=$(mktemp -d "${TMPDIR:-/tmp}/zverif.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
start=$(date +%s.%N)
cp "$here/harness/go.mod" "$here/harness/go.sum" "$scratch/" || exit 2
repo=/repo
if [ -n "${ZVERIF_REPO:-}" ]; then # experiments on a scratch copy
  repo=$ZVERIF_REPO
  sed -i "s|=> /repo|=> $repo|" "$scratch/go.mod"
fi
out=${ZVERIF_OUT:-$here/evidence}
build() { # out, extra flags
  local out=$1; shift
  (cd "$here/harness" && go build -modfile="$scratch/go.mod" "$@" -o "$out" .)
}
if [ "$prop" = "--build" ]; then
  build "$scratch/h" && build "$scratch/hr" -race
  exit $?
fi
flags=()
if [ "$prop" = "C21" ]; then flags=(-race); fi
if ! build "$scratch/h" "${flags[@]}"; then
  echo "inconclusive: the harness does not build against /repo" >&2
  exit 2
fi
if [ "$prop" = "C18" ] || [ "$prop" = "C24" ]; then
  if ! (cd "$repo" && CGO_ENABLED=0 go build -o "$scratch/zanzid" ./cmd/zanzid); then
    echo "inconclusive: zanzid does not build" >&2
    exit 2
  fi
fi
if [ "$prop" = "C22" ]; then
  if ! (cd "$repo" && go build -o "$scratch/zanzi-cli" ./cmd/zanzi-cli); then
    echo "inconclusive: zanzi-cli does not build" >&2
    exit 2
  fi
fi
wall=$(echo "$(date +%s.%N) - $start" | bc 2>/dev/null || echo 0)
mkdir -p "$scratch/work"
"$scratch/h" -prop "$prop" -out "$out" -scratch "$scratch/work" -wall "${wall:-0}" "${case_arg[@]}"
exit $?
