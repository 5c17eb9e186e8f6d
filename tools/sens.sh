#!/bin/bash
# development helper: run a check against /repo with one commit reverted or a patch applied
#   sens.sh <commit|patch file> <check> [tier] [options]
what=$1; shift; id=$1; shift
d=$(mktemp -d /tmp/sens-XXXXXX)
git -C /repo archive HEAD include examples osmjs | tar -x -C "$d"
if [ -f "$what" ]; then (cd "$d" && patch -s -p1 < "$what"); else git -C /repo show "$what" | (cd "$d" && patch -s -R -p1) || { echo "DOES NOT APPLY"; }; fi
VERIF_REPO=$d VERIF_SCRATCH_EVIDENCE=1 python3 /verif/run.py "$id" "$@" 2>&1 | tail -${TAIL:-6} | cut -c1-400
rm -rf "$d"
