#!/bin/bash
# tools/sweep.sh "C01 C02" "1 2 3" [extra args]: runs checks for several seeds, prints only what is not quiet
for s in $2; do for i in $1; do o=$(VERIF_SEED=$s python3 run.py $i $3 2>&1); r=$?; if [ $r != 0 ]; then echo "== $i seed $s rc=$r"; echo "$o" | grep -v SyntaxW | cut -c1-600; fi; done; done; echo sweep done
