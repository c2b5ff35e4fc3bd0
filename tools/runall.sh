#!/bin/bash
# run the given checks (default: all) in parallel and print the last lines
cd "$(dirname "$0")/.."
L=${@:-$(python3-vt -c "from rtsa.checks import CHECKS; print(*CHECKS)")}
mkdir -p /tmp/rtsa_out
printf '%s\n' $L | xargs -P 6 -I{} bash -c 's=$(date +%s.%N); timeout 1200 python3-vt -m rtsa check {} > /tmp/rtsa_out/{}.txt 2>&1; rc=$?; e=$(date +%s.%N); echo "{} rc=$rc $(echo "$e-$s"|bc)s $(grep -v "^    via" /tmp/rtsa_out/{}.txt | tail -1 | cut -c1-200)"'
