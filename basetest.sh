#!/bin/bash
# run the stable tests of /repo and print the ones that no longer pass
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
    return set()
bp=passed(b); rp=passed(r)
print("baseline",len(bp),"now passing",len(bp&rp)); print("\n".join(sorted(bp-rp)))
P
rm -f $o
