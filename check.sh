#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
bin=$(./build.sh) || { echo "cannot build govc" >&2; exit 2; }
exec "$bin" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "${VERIF_REPO:-/repo}" -specs "$PWD/specs"
