#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_symgo || { echo "cannot build the symbolic executor"; exit 2; }
exec "$SYMGO" -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-quick}"
