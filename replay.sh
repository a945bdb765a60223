#!/bin/bash
# replay.sh FILE: run a reported counterexample on the compiled code of /repo.
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
. ./env.sh
build_symgo || exit 2
exec "$SYMGO" -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -replay "$f"
