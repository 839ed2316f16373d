#!/bin/sh
# check.sh ID TIER: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 0
. ./env.sh
bin=$(mktemp -d "${TMPDIR:-/tmp}/vsamc.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT INT TERM
(cd mc && go build -o "$bin/vsamc" .) || exit 2
VSAMC_VERIF="$PWD" "$bin/vsamc" check "$1" "${2:-${VERIF_TIER:-quick}}"
