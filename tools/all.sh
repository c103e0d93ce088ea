#!/bin/bash
# developer aid: every edit case, only unexpected outcomes shown
cd "$(dirname "$0")/.."
ls tools/cases/*.mut | xargs -P3 -I{} sh -c 'python3 tools/mut.py {} 2>&1 | grep -v " good " | sed "s|^|$(basename {}): |" | cut -c1-300'
for c in rules/r_*.py; do id=$(basename $c .py | sed s/r_//); python3 check.py ${id^^} >/tmp/all.out 2>&1 || { echo "unchanged $id:"; tail -3 /tmp/all.out; }; done
echo all-done
