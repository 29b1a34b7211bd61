#!/bin/bash
# runs every check once and prints a summary (by hand)
cd "$(dirname "$0")/.."
for f in ${@:-$(ls tools/props | sed s/.txt//)}; do
  s=$(date +%s); o=$(timeout 900 python3-vt check.py $f 2>&1); r=$?; e=$(date +%s)
  echo "$f rc=$r $((e-s))s $(echo "$o" | tail -1 | cut -c1-160)"
done
