#!/bin/bash
# Vacuity test of the contracts: with `assert(false)` added at the end of every function under contract,
# every function must fail. Prints the functions that do not. Usage: smoke.sh DIR SPEC...
set -e
d=$1; shift
mkdir -p $d
cd /verif/vx && CARGO_TARGET_DIR=/tmp/vxt cargo build -q --release --offline
VX_SMOKE=1 /tmp/vxt/release/vx /repo/src $d/o.rs $d/o.json "$@"
cd $d
verus o.rs --multiple-errors 0 --output-json --time-expanded > smoke.json 2> smoke.err || true
python3 - <<'P'
import json,re
src=open('o.rs').read().split('\n')
fails=set()
for m in re.finditer(r'^error.*\n +--> o.rs:(\d+)',open('smoke.err').read(),re.M):
    if 'assertion failed' in m.group(0): fails.add(int(m.group(1)))
n=0
for i,l in enumerate(src,1):
    if l.strip()=='assert(false);':
        n+=1
        if i not in fails:
            for j in range(i,0,-1):
                f=re.search(r'\bfn +(\w+)',src[j-1])
                if f: print('not refuted:',f.group(1),'line',i); break
print(n,'functions')
P
