#!/bin/bash
# prof.sh CXX harness [unwind] [secs]: where symbolic execution spends its loop iterations
R=$(cd "$(dirname "$0")/.." && pwd); cd $R; timeout 100 python3 tools/dev.py $1 3 $2 | tail -1
f=$(find $R/kani/target/kani -name "*$2*.out" -path "*/${1,,}/*" | grep -v symtab | head -1)
timeout ${4:-40} ~/.kani/kani-0.68.0/bin/cbmc --unwind ${3:-30} --slice-formula --no-standard-checks --verbosity 9 $f > /tmp/prof.log 2>&1
grep -o "Unwinding loop [^ ]*" /tmp/prof.log | sort | uniq -c | sort -rn | head -${5:-15} | while read n a b s; do echo "$n $(echo $s | rustfilt 2>/dev/null || python3 -c "
import sys;print(sys.argv[1][:260])" $s)"; done
tail -2 /tmp/prof.log | cut -c1-300
