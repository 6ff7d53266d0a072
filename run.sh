#!/usr/bin/env bash
# ./run.sh ID [quick|thorough]   - decide one property against /repo's working tree
# ./run.sh replay FILE           - re-run a replay file
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id=${1:?usage: run.sh ID [quick|thorough]}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM HUP
fail() { echo "$*" >&2; exit 2; }
build() { (cd harness && go build "$@") || fail "build of the harness against /repo failed"; }
export VERIF_TMP="$work"
build -o "$work/verif" ./cmd/verif
want=$id
[ "$id" = replay ] && want=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "${2:?replay FILE}" | head -1)
case "$want" in
C11) build -race -o "$work/verif-race" ./cmd/verif
     export VERIF_RACE_BIN="$work/verif-race" GORACE="halt_on_error=1 exitcode=66" ;;
C36) (export GOARCH=386 CGO_ENABLED=0; build -o "$work/verif32" ./cmd/verif) || exit 2
     export VERIF_BIN32="$work/verif32" ;;
C31) (cd /repo/cmd/qrcode && GOWORK= GOFLAGS=-buildvcs=false go build -o "$work/qrcode" .) || fail "build of cmd/qrcode failed"
     export VERIF_CLI="$work/qrcode" ;;
C32) (cd /repo/cmd/wasm && GOWORK= GOFLAGS=-buildvcs=false GOOS=js GOARCH=wasm go build -o "$work/qrcode.wasm" .) || fail "build of cmd/wasm failed"
     export VERIF_WASM="$work/qrcode.wasm" VERIF_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js" VERIF_NODE_HOST="$PWD/harness/wasmhost.js" ;;
esac
export TMPDIR="$work"
if [ "$id" = replay ]; then
	bin="$work/verif"; [ -n "${VERIF_RACE_BIN:-}" ] && bin=$VERIF_RACE_BIN
	"$bin" replay "$2"; exit $?
fi
"$work/verif" check "$id" "${2:-${VERIF_TIER:-quick}}"
