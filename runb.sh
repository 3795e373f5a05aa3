#!/bin/bash
# runb.sh NAME ARGS...: quick local run of one worker of a driver that needs base.cpp only
cd /verif; n=$1; shift
B=$(./build.sh ${FLAVOR:-asan} $n base.cpp $n.cpp) || { echo "$B"; exit 2; }
time timeout ${TMO:-300} $B --seed ${SEED:-1} --worker 0 --nworkers ${NW:-1} --out /tmp/o.json "$@" 2>&1 | tail -${TAIL:-25}
python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(d['evaluations'],d['stats'],len(d['hashes']));
for v in d['violations'][:4]: print(v['case'],v['key'],v['detail'][:600]); print(v['trail'] if isinstance(v['trail'],str) else '\n'.join(v['trail'][:30]))"
