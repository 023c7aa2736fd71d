#!/bin/bash
# run every check, print the summary lines
cd "$(dirname "$0")/.."
ls sa/rules/c[0-9][0-9].py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P 6 -I{} sh -c 'python3 check.py --property {} --tier quick | grep -v "^KNOWN" | tail -4 | cut -c1-240'
