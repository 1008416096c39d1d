#!/bin/bash
# usage: build.sh REPO OUTDIR [race]
# builds OUTDIR/harness and OUTDIR/sut (and OUTDIR/sut-race)
set -eu
repo=$1 out=$2 race=${3:-}
verif=$(cd "$(dirname "$0")/.." && pwd)
. "$verif/tools/env.sh"
mkdir -p "$out/b"
(
	cd "$verif/harness"
	cp go.mod "$out/b/h.mod"
	: >"$out/b/h.sum"
	go build -modfile="$out/b/h.mod" -o "$out/harness" .
) &
h=$!
python3 "$verif/sut/mkoverlay.py" "$repo" "$out/b/overlay"
cp "$repo/go.mod" "$out/b/sut.mod"
printf '\nreplace github.com/siebenmann/smtpd => %s\n' "$verif/smtpd" >>"$out/b/sut.mod"
: >"$out/b/sut.sum"
cd "$repo"
r=
if [ -n "$race" ]; then
	go build -race -modfile="$out/b/sut.mod" -overlay "$out/b/overlay/overlay.json" -o "$out/sut-race" . &
	r=$!
fi
go build -modfile="$out/b/sut.mod" -overlay "$out/b/overlay/overlay.json" -o "$out/sut" .
wait $h
[ -z "$r" ] || wait $r
