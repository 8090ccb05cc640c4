#!/bin/bash
# runs every built check in parallel; prints the last line of each
cd "$(dirname "$0")/.."
ls specs/p[0-9]*.py | sed 's/.*p\([0-9]*\).py/P\1/' | xargs -P 7 -I{} sh -c 'o=$(timeout 900 python3 check.py --property {} "$@" 2>&1); r=$?; printf "%s\n" "$o" | tail -1 | cut -c1-200 | sed "s/^/[$r] /"' sh "$@" | sort -k3
