#!/bin/bash
# dbgall.sh HARNESS "entries" : run several entries one after another, compact output
for e in $2; do /verif/dbg.sh $1 $1_$e ${@:3} 2>&1 | grep -v '^$' | cut -c1-900; done
