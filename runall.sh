#!/bin/bash
# development helper: run every check (or those named) one after another
cd "$(dirname "$0")"
for c in ${*:-$(ls harness/gen/c[0-9]*.py | sed 's/.*c\([0-9]*\).py/C\1/')}; do
  python3-vt check.py $c --tier ${TIER:-quick} 2>&1 | tail -${TAIL:-1}
done
