#!/bin/bash
# Builds the symbolic executor (also done by check.sh when it is missing).
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_symgo
