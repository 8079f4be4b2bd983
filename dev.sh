#!/bin/bash
# dev helper: dev.sh PROP [tier]  (assumes build all done)
cd /verif
export VERIF_SCRATCH=/tmp/vscratch; mkdir -p /tmp/vscratch
SYM_DEADLINE_S=${SYM_DEADLINE_S:-120} ./build/symtarget/debug/harness $1 ${2:-quick} /tmp/o-$1.json >/dev/null 2>/tmp/err-$1.txt; grep symrt /tmp/err-$1.txt | sort | uniq -c | head -3
python3 show.py /tmp/o-$1.json ${N:-4} | cut -c1-${W:-500}
