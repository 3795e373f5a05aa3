"""mkseed.mk(id, prop, [(file, old, new)...], needs, breaks, demo_cpp, mini=False, flags="") writes seeded/ID."""
import json, os, shutil, subprocess
V = "/verif"
def mk(id, prop, edits, needs, breaks, demo, mini=False, flags="", pre=""):
	w = "/tmp/plant/mk"; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/plant", exist_ok=True)
	subprocess.check_call(["git", "clone", "-q", "/repo", w])
	for f, old, new in edits:
		p = w + "/" + f; s = open(p).read()
		assert s.count(old) == 1, (id, f, s.count(old), old)
		open(p, "w").write(s.replace(old, new))
	d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
	open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
	json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
	open(d + "/demo.cpp", "w").write(demo)
	if mini: shutil.copy(V + "/tools/demo/mini.hpp", d + "/mini.hpp")
	open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in /repo after the build: exit 0 when the property holds for this demonstration
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%sg++ -std=c++11 -O1 -g -w %s -I include -I src -I "$D" "$D/demo.cpp" librtmfp.a -lcrypto -lpthread -o "$T/demo" || exit 2
timeout 120 "$T/demo"
''' % (pre, flags))
	os.chmod(d + "/demo.sh", 0o755)
	shutil.rmtree(w)
