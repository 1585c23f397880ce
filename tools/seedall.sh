#!/bin/bash
# tools/seedall.sh [ID...]: seedtest.sh over all (or the given) planted bugs, three at a time
V=$(cd "$(dirname "$0")/.." && pwd); [ $# -gt 0 ] && L="$*" || L=$(ls $V/seeded)
printf '%s\n' $L | xargs -P 1 --process-slot-var=SLOT -I{} bash -c "SEEDWT=/tmp/seedwt\$SLOT bash $V/tools/seedtest.sh {} $NOCHECK" 
