#!/bin/bash
# run1.sh NAME ARGS...: quick local run of one worker
cd /verif; n=$1; shift
B=$(./build.sh asan $n base.cpp sim.cpp app.cpp $n.cpp) || { echo "$B"; exit 2; }
timeout 300 $B --seed ${SEED:-1} --worker 0 --nworkers 1 --out /tmp/o.json "$@" 2>&1 | tail -${TAIL:-25}
python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(d['evaluations'],d['stats'],len(d['hashes']));
for v in d['violations'][:4]: print(v['case'],v['key'],v['detail'][:600]); print(v['trail'] if isinstance(v['trail'],str) else '\n'.join(v['trail'][:30]))"
