#!/bin/bash
# list functions by smt time
verus ${1:-/tmp/g.rs} --crate-type lib --triggers-mode silent --rlimit ${RL:-100} --output-json --time-expanded 2>/dev/null | python3 -c "
import json,sys
d=json.load(sys.stdin); r=[]
for m in d['times-ms']['smt']['smt-run-module-times']:
    for f in m.get('function-breakdown',[]): r.append((f['time'],f.get('rlimit'),f['success'],f['function']))
r.sort(reverse=True)
for x in r[:25]: print(x)
print(d['verification-results'])
"
