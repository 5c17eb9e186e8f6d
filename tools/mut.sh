#!/bin/bash
# development helper: run a check against a copy of /repo with one file edited by a sed expression
#   mut.sh <file below include/osmium or examples/...> <sed expression> <check> [tier] [options]
f=$1; e=$2; id=$3; shift 3
d=$(mktemp -d /tmp/mut-XXXXXX)
cp -a /repo/include /repo/examples "$d/"
[ -f "$d/include/osmium/$f" ] && p="$d/include/osmium/$f" || p="$d/$f"
cp "$p" "$d/orig"; sed -i -E "$e" "$p"; cmp -s "$p" "$d/orig" && echo "NO CHANGE by $e"
echo "== $f: $e"
VERIF_REPO=$d VERIF_SCRATCH_EVIDENCE=1 python3 /verif/run.py "$id" "$@" 2>&1 | tail -${TAIL:-3} | cut -c1-300
rm -rf "$d"
