#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]     run one property's check
#        check.sh --replay FILE                 re-run a replay file
# Builds the harness and sinksmtp from /repo's working tree in a scratch
# directory, which is removed afterwards.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. "$verif/tools/env.sh"
base=/dev/shm
[ -d $base ] && [ -w $base ] || base=/tmp
work=$(mktemp -d "$base/verif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
mode=$1
replay=
if [ "$mode" = --replay ]; then
	replay=$(readlink -f "$2")
	prop=$(sed -n 's/^ *"property": *"\([A-Z0-9]*\)".*/\1/p' "$replay" | head -1)
	tier=quick
else
	prop=$1
	tier=${2:-${VERIF_TIER:-quick}}
fi
race=
case $prop in C18|C26) race=1 ;; esac
"$verif/tools/build.sh" "$repo" "$work" $race || { echo "check: build failed" >&2; exit 2; }
args=(-prop "$prop" -tier "$tier" -bin "$work/sut" -work "$work" -verif "$verif" -seed "${VERIF_SEED:-1}")
[ -n "$race" ] && args+=(-racebin "$work/sut-race")
[ -n "${VERIF_SECS:-}" ] && args+=(-secs "$VERIF_SECS")
[ -n "${VERIF_CASES:-}" ] && args+=(-cases "$VERIF_CASES")
if [ -n "$replay" ]; then
	"$work/harness" replay "${args[@]}" -file "$replay"
else
	"$work/harness" run "${args[@]}"
fi
rc=$?
exit $rc
