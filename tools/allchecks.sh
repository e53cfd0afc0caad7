#!/bin/bash
# run every registered check one after the other and print one line each (development)
cd /verif
for f in checks/c[0-9]*.py; do c=$(basename $f .py); C=${c^^}
 s=$(date +%s); out=$(./run.py $C 2>&1); rc=$?; e=$(date +%s)
 echo "$C rc=$rc $((e-s))s $(echo "$out" | tail -1)"; echo "$out" | grep -A4 VIOLATION | head -${1:-10}
done
