#!/bin/bash
# seeds.sh NAME [ARGS]: one worker per seed (SEEDS="1 2 3 ..."), summary of what failed
cd /verif; n=$1; shift
B=$(./build.sh ${FLAVOR:-asan} $n $(tools/srcs.sh $n) $n.cpp) || { echo "$B"; exit 2; }
T=$(mktemp -d)
for s in ${SEEDS:-1 2 3 4 5 6 7 8}; do
	(ASAN_OPTIONS=detect_leaks=${LEAKS:-0}:detect_stack_use_after_return=1:handle_abort=1 UBSAN_OPTIONS=print_stacktrace=1 timeout ${TMO:-600} $B --seed $s --worker 0 --nworkers 1 --out $T/$s.json --progress $T/$s.prog "$@" > $T/$s.txt 2>&1; echo $? > $T/$s.rc) &
done; wait
python3 - $T <<'E2'
import json,sys,glob,os
T=sys.argv[1]; ev=0; st={}; hs=set()
for f in sorted(glob.glob(T+"/*.txt")):
    s=os.path.basename(f)[:-4]; rc=open(f"{T}/{s}.rc").read().strip()
    try: d=json.load(open(f"{T}/{s}.json"))
    except Exception as e:
        print("seed",s,"rc",rc,"case",open(f"{T}/{s}.prog").read() if os.path.exists(f"{T}/{s}.prog") else "?","NO OUTPUT",open(f).read()[:3500]); continue
    ev+=d["evaluations"]; hs|=set(d["hashes"])
    for k,v in d["stats"].items(): st[k]=max(st.get(k,0),v) if k.startswith("max_") else st.get(k,0)+v
    if rc not in("0","3"): print("seed",s,"rc",rc,open(f).read()[-3500:])
    for v in d["violations"][:3]: print("seed",s,"case",v["case"],v["key"],v["detail"][:500],"\n   ",str(v["trail"])[:600])
print(ev,"evals",len(hs),"distinct",{k:round(v,3) for k,v in sorted(st.items())})
E2
rm -rf $T
