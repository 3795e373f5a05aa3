#!/usr/bin/env python3
"""plant.py ID...: confirms seeded/ID in a scratch copy of /repo mounted over /repo in a mount namespace of its own:
demo passes on HEAD, patch applies, builds, stable tests pass, demo fails; then runs the property's check (and any others given with --also).
  --no-check: only confirm; --check-only: skip tests and demo"""
import json, os, subprocess, sys, shutil
V = "/verif"; P = "/tmp/plant"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
also = [x for o in opts if o.startswith("--also=") for x in o[7:].split(",")]
os.makedirs(P, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def ns(repo, verif, c, t=900):
	return sh("unshare -Urm bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /repo && %s'" % (repo, verif, c), timeout=t)
for i in args:
	repo = "%s/%s.repo" % (P, i); ver = "%s/%s.verif" % (P, i)
	for d in (repo, ver): shutil.rmtree(d, ignore_errors=True)
	sh("cp -a /repo %s && git -C %s checkout -q -- . " % (repo, repo))
	sh("mkdir %s && cd /verif && cp -a [!s]* setup.sh %s/ && cp -a seeded %s/" % (ver, ver, ver))
	prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
	demo = "%s/seeded/%s/demo.sh" % (V, i)
	out = []
	if "--check-only" not in opts:
		r = ns(repo, ver, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s" % demo)
		out.append("clean demo rc %d" % r.returncode + ("" if r.returncode == 0 else "\n" + r.stdout[-1500:]))
	r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (repo, V, i))
	if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); continue
	if "--check-only" not in opts:
		r = ns(repo, ver, "bash /opt/vp/test.sh %s/o.json >%s/t.log 2>&1; bash %s" % (repo, repo, demo))
		try:
			d = json.load(open(repo + "/o.json")); res = json.dumps(d)
			base = json.load(open("/opt/vp/BASELINE.json"))
		except Exception as e: res = "no results " + str(e) + open(repo + "/t.log").read()[-800:]
		import re
		nf = [l for l in open(repo + "/_build/results/results.txt") if l.startswith("FAIL")] if os.path.exists(repo + "/_build/results/results.txt") else ["?"]
		np_ = len([l for l in open(repo + "/_build/results/results.txt") if l.startswith("PASS")])
		out.append("tests pass %d fail %s" % (np_, nf))
		out.append("patched demo rc %d: %s" % (r.returncode, r.stdout.strip()[-200:]))
	if "--no-check" not in opts:
		for p in [prop] + also:
			if subprocess.run(["grep", "-q", '"%s": dict' % p, V + "/checks.py"]).returncode: out.append("no check for " + p); continue
			r = ns(repo, ver, "cd /verif && ./run.py %s" % p)
			lines = [l for l in r.stdout.splitlines() if "case" in l or "VIOLATION" in l or "evaluations" in l or "ERROR" in l]
			out.append("check %s rc %d\n    %s" % (p, r.returncode, "\n    ".join(l[:230] for l in lines[-5:])))
	print(i, prop, "\n  ".join([""] + out), flush=True)
	for d in (repo, ver): shutil.rmtree(d, ignore_errors=True)
