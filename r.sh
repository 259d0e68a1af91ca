#!/bin/bash
# r.sh SECS HARNESS... : run harnesses, short summary (development aid)
D=$(cd "$(dirname "$0")" && pwd)
S=$1; shift
for h in "$@"; do
 timeout $((S+200)) $D/run1.sh ${h%%:*} $(echo "$h" | grep -o ':.*' | tr ':' ' ') --secs $S --json /tmp/r_$$.json >/tmp/r_$$.out 2>&1
 echo "$h rc=$?"
 python3 - $h /tmp/r_$$.json /tmp/r_$$.out <<'P'
import json,sys
try: r=json.load(open(sys.argv[2]))
except Exception: print(open(sys.argv[3]).read()[-1500:]); sys.exit()
print(" paths %(paths)s pruned %(pruned)s asserts %(asserts)s triv %(asserts_trivial)s q %(queries)s unk %(unknown)s solver %(solver_s).1f total %(total_s).1f instr %(instructions)s val %(validated)s mism %(mismatched)s nomodel %(no_model)s"%r, "reach",r["reach"],"obl",r["obligations"])
for k in ("mismatches","violations","unconfirmed","inconclusive","solver_errors"):
    for v in r[k][:4]: print("  ",k,str(v)[:600])
P
 rm -f /tmp/r_$$.json /tmp/r_$$.out
done
