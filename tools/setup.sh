#!/bin/bash
# Checks that the framework builds; the checks themselves build afresh.
set -eu
verif=$(cd "$(dirname "$0")/.." && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
bash "$verif/tools/build.sh" "${VERIF_REPO:-/repo}" "$out"
