#!/bin/sh
# every check, one line each
cd "$(dirname "$0")/.."
ls rules/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P 6 -I{} sh -c 'python3 check.py {} $0 > /tmp/runall.{} 2>&1; echo "{} rc=$? $(grep obligations /tmp/runall.{} | tail -1)"' "$@" | sort
