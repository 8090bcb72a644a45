#!/bin/bash
# run every rule on the current tree and every mutant/refactor table, 8 at a time; print a summary
cd /verif
mkdir -p /tmp/ck
ls tests/c*.py | xargs -P 8 -I{} sh -c 'b=$(basename {} .py); id=$(echo $b | tr c C); (/usr/bin/time -f "%e s" python3 check.py $id quick; echo rc=$?) > /tmp/ck/$b.chk 2>&1; python3 tools/mut.py {} > /tmp/ck/$b.mut 2>&1'
for f in /tmp/ck/*.mut; do b=$(basename $f .mut); echo "$b $(grep rc= /tmp/ck/$b.chk) | $(tail -1 $f)"; done
