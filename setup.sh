#!/usr/bin/env bash
# Checks that the framework builds offline and that its reference model agrees with the published vectors.
set -eu
cd "$(dirname "$0")"
. ./env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd harness
go vet ./qrref ./core
go test ./qrref
go build -o "$work/verif" ./cmd/verif
"$work/verif" list
