#!/bin/bash
# run.sh PID [only]: quick look, no refuters, only non-proved units
VERIF_NOFALLBACK=1 VERIF_NOTRACE=1 VERIF_NOREFUTE=1 VERIF_ONLY=$2 timeout 880 python3 /verif/check.py $1 2>&1 | grep -v '^proved' | cut -c1-420 | head -${3:-40}
