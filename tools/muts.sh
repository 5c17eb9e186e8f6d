#!/bin/bash
# development helper: many mutations, one "file@@sed expression@@check" per line on stdin
while IFS= read -r l; do [ -z "$l" ] && continue; f=${l%%@@*}; r=${l#*@@}; e=${r%%@@*}; TAIL=2 "$(dirname "$0")/mut.sh" "$f" "$e" ${r#*@@}; done
