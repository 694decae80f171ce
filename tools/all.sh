#!/bin/bash
# every quick check, two at a time; prints id, exit status, seconds
cd "$(dirname "$0")/.."
one() { s=$(date +%s); timeout 900 /opt/venv/bin/python run.py "$1" > "/tmp/chk_$1.log" 2>&1; r=$?; echo "$1 rc=$r $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/chk_$1.log)"; }
export -f one
ls checks/[A-Z]*.py | xargs -n1 basename -s .py | { [ -n "$1" ] && grep -E "$1" || cat; } | xargs -P "${JOBS:-2}" -I{} bash -c 'one {}'
