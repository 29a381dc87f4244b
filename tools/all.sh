#!/bin/bash
# all specification units, one process each: prints what is not OK
cd "$(dirname "$0")/.."
for s in ${@:-$(ls spec/*.cpp | xargs -n1 basename)}; do (LIM=${LIM:-300} python3-vt tools/try.py ${s%.cpp}.cpp > /tmp/try_${s%.cpp}.log 2>&1) & done; wait
grep -H '^NO\|^EXC\|^ERR\|^bad\|Error' /tmp/try_*.log | sed 's,/tmp/try_,,' | grep -v ':bad 0'
