#!/bin/sh
# setup.sh: warms the build cache (every check rebuilds what it needs anyway).
cd "$(dirname "$0")" || exit 1
. ./env.sh
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vsamc.XXXXXX") || exit 1
trap 'rm -rf "$tmp"' EXIT INT TERM
(cd mc && go build -o "$tmp/vsamc" .) || exit 1
work=$(VSAMC_VERIF="$PWD" "$tmp/vsamc" build c02 "$tmp/h") && rm -rf "$work"
work=$(VSAMC_VERIF="$PWD" "$tmp/vsamc" build c10 "$tmp/h" 2>/dev/null) && rm -rf "$work"
exit 0
