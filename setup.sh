#!/bin/bash
# Compiles the harness once in both flavours (warms the build cache where it is kept).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
work=$(mktemp -d /tmp/verif.XXXXXX)
trap 'rm -rf "$work"' EXIT
cd "$here/harness"
go build -trimpath -o "$work/h" .
go build -trimpath -race -o "$work/hr" .
GOARCH=386 go build -trimpath -o "$work/h32" . || true
mkdir -p "$here/evidence"
