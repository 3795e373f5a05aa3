#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE]: builds and runs the drivers of one property, merges what they observed into
evidence/PROPERTY.json, prints VIOLATION/KNOWN-FINDING lines. Exit 0 held, 1 violated, 2 the check could not run."""
import json, os, re, signal, subprocess, sys, time, shutil, hashlib, tempfile
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import PROPS

def env_for(p, logbase):
	e = dict(os.environ)
	e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=97:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=3000:symbolize=1:handle_abort=1:log_path=%s" % (1 if p["leaks"] else 0, logbase)
	e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=97:log_path=%s" % logbase
	e["LSAN_OPTIONS"] = "exitcode=96:log_path=%s" % logbase
	e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:log_path=%s" % logbase
	return e

def read_logs(logbase):
	d = os.path.dirname(logbase); b = os.path.basename(logbase)
	t = ""
	for f in sorted(os.listdir(d)):
		if f.startswith(b + ".") and f[len(b)+1:].isdigit():
			t += open(os.path.join(d, f), errors="replace").read()
	return t

def sanitizer_key(t):
	m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", t)
	kind = None
	if m: kind = m.group(2)
	if kind == "ABRT": kind = "abort"
	m2 = re.search(r"runtime error: (.*)", t)
	if not kind and m2: kind = "ub:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1))[:60]
	m3 = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", t)
	if not kind and m3: kind = m3.group(1).strip()
	fr = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?com::zenomt[^\n(]*)", t) or re.search(r"#\d+ ([^\n]*?com::zenomt[^\n(]*)", t)
	where = fr.group(1).strip().split(" ")[-1] if fr else "?"
	return (kind or "crash", where)

def load_known(prop):
	known = []
	try:
		for line in open(os.path.join(V, "known_findings.txt")):
			line = line.strip()
			m = re.match(r"known: property=(\S+) driver=(\S+) key=(\S+) (.*)", line)
			if m and m.group(1) == prop: known.append(dict(driver=m.group(2), key=m.group(3), what=m.group(4)))
	except FileNotFoundError: pass
	return known

class Worker:
	pass

def start(p, binp, prop, seed, thorough, tmp, w, extra=()):
	k = Worker()
	k.w = w
	k.out = os.path.join(tmp, "%s.%d.json" % (p["driver"], w)); k.prog = os.path.join(tmp, "%s.%d.prog" % (p["driver"], w))
	k.log = os.path.join(tmp, "%s.%d.san" % (p["driver"], w)); k.stdout = os.path.join(tmp, "%s.%d.txt" % (p["driver"], w))
	for f in (k.out, k.prog): 
		if os.path.exists(f): os.unlink(f)
	cmd = [binp, "--seed", str(seed), "--prop", prop, "--worker", str(w), "--nworkers", str(p["workers"]), "--budget", str(p["thorough" if thorough else "quick"]), "--out", k.out, "--progress", k.prog] + (["--thorough"] if thorough else []) + p["args"] + list(extra)
	k.f = open(k.stdout, "w")
	k.p = subprocess.Popen(cmd, stdout=k.f, stderr=subprocess.STDOUT, env=env_for(p, k.log), cwd=tmp, start_new_session=True)
	k.last = None; k.lastt = time.time(); k.hung = False
	return k

def progress(k):
	try: return open(k.prog).read().strip()
	except OSError: return ""

def wait_all(ks, p, deadline):
	while True:
		alive = [k for k in ks if k.p.poll() is None]
		if not alive: return
		for k in alive:
			c = progress(k)
			if c != k.last: k.last = c; k.lastt = time.time()
			elif time.time() - k.lastt > p["case_s"] or time.time() > deadline:
				k.hung = True
				try: os.killpg(k.p.pid, signal.SIGKILL)
				except ProcessLookupError: pass
				k.p.wait()
		time.sleep(0.05)

def rerun(p, binp, prop, seed, thorough, tmp, case):
	"""One case on its own: (failed, key, detail)."""
	k = start(p, binp, prop, seed, thorough, tmp, 99, ["--case", str(case)])
	wait_all([k], p, time.time() + p["case_s"])
	return verdict(k)

def verdict(k):
	t = read_logs(k.log)
	rc = k.p.returncode
	if k.hung: return ("hang", "case %s made no progress" % progress(k), t)
	if rc in (0, 3): return (None, "", t)
	tail = open(k.stdout, errors="replace").read()[-1500:]
	kind, where = sanitizer_key(t + tail)
	ex = re.search(r"terminate called after throwing[^\n]*|what\(\): [^\n]*", tail)
	if ex: kind = "uncaught-exception"
	if rc == 96 or "LeakSanitizer" in t: kind = "leak"
	return ("%s@%s" % (kind, where), (tail[-300:] + "\n" + t)[:6000], t)

def main():
	prop = sys.argv[1]
	cfg = PROPS[prop]
	tier = os.environ.get("VERIF_TIER", "quick")
	if tier not in ("quick", "thorough"): tier = "quick"
	if "--thorough" in sys.argv: tier = "thorough"
	seed = int(os.environ.get("VERIF_SEED", "1"))
	thorough = tier == "thorough"
	replay = None
	if "--replay" in sys.argv:
		replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
		seed = replay["seed"]; thorough = replay.get("tier") == "thorough"
	t0 = time.time()
	os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(os.path.join(V, "replays"), exist_ok=True)
	known = load_known(prop)
	evals = 0; hashes = set(); stats = {}; samples = []; rules = []; violations = []; errors = []; knownhits = {}; partinfo = []
	tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
	try:
		for p in cfg["parts"]:
			if replay and replay["driver"] != p["driver"]: continue
			b = subprocess.run([os.path.join(V, "build.sh"), p["flavor"], p["driver"]] + p["srcs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
			if b.returncode:
				print(b.stdout); print("ERROR: build failed for", p["driver"]); sys.exit(2)
			binp = b.stdout.strip().splitlines()[-1]
			tb = time.time()
			if replay:
				k = start(p, binp, prop, seed, thorough, tmp, 0, ["--case", str(replay["case"]), "-v"])
				wait_all([k], p, time.time() + p["case_s"])
				print(open(k.stdout, errors="replace").read()[-20000:]); print(read_logs(k.log))
				v = verdict(k)
				if v[0] or k.p.returncode == 3:
					print("VIOLATION property=%s replay=%s" % (prop, sys.argv[sys.argv.index("--replay") + 1])); sys.exit(1)
				sys.exit(0)
			ks = [start(p, binp, prop, seed, thorough, tmp, w) for w in range(p["workers"])]
			wait_all(ks, p, tb + p["thorough" if thorough else "quick"] + p["case_s"] + 60)
			pe = 0; ph = 0
			for k in ks:
				v = verdict(k)
				d = None
				try: d = json.load(open(k.out))
				except (OSError, ValueError) as ex:
					if not v[0]: errors.append("no output from worker %d of %s: %s" % (k.w, p["driver"], ex))
				if d:
					evals += d["evaluations"]; pe += d["evaluations"]
					hs = {p["driver"] + h for h in d["hashes"]}; hashes |= hs; ph += len(hs)
					for n, x in d["stats"].items():
						if n.startswith("max_"): stats[n] = max(stats.get(n, 0), x)
						else: stats[n] = stats.get(n, 0) + x
					samples += d["samples"][:1]
					if d["rule"] not in rules: rules.append(d["rule"])
					for x in d["violations"]:
						violations.append(dict(driver=p["driver"], case=x["case"], key=x["key"], detail=x["detail"], trail=x["trail"]))
				if v[0]:
					case = progress(k)
					key, det = v[0], v[1]
					if not (v[2].strip()) and k.p.returncode in (-9, 137) or k.hung:
						# killed or stuck without a report: believe it only if it happens again on its own
						r = rerun(p, binp, prop, seed, thorough, tmp, case) if case else (None, "", "")
						if not r[0]:
							errors.append("worker %d of %s ended (%s) at case %s but the case passes on its own" % (k.w, p["driver"], key, case)); continue
						key, det = r[0], r[1]
					violations.append(dict(driver=p["driver"], case=int(case or -1), key=key, detail=det, trail=""))
			partinfo.append(dict(driver=p["driver"], flavor=p["flavor"], evaluations=pe, workers=p["workers"], wall_s=round(time.time() - tb, 1)))
	finally:
		shutil.rmtree(tmp, ignore_errors=True)
	real = []
	for v in violations:
		kn = next((k for k in known if k["driver"] == v["driver"] and k["key"] == v["key"]), None)
		if kn: knownhits[kn["what"]] = knownhits.get(kn["what"], 0) + 1
		else: real.append(v)
	for k in known:
		# the drivers run every listed finding's scenario; say which still fail
		print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["what"] in knownhits else " (not seen in this run)"))
	if not real and not evals and not errors: errors.append("no case was run")
	ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level=cfg["level"], wall_s=round(time.time() - t0, 2),
		coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=" | ".join(rules) or "none", samples=samples[:6] or ["none"], observed={k: stats[k] for k in sorted(stats)}, parts=partinfo, violations=len(real), known_findings=len(knownhits), errors=errors))
	json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
	seen = set()
	for v in real:
		if (v["driver"], v["key"]) in seen: continue
		seen.add((v["driver"], v["key"]))
		name = "%s-%s-%s.json" % (prop, v["driver"], hashlib.sha1(v["key"].encode()).hexdigest()[:10])
		path = os.path.join(V, "replays", name)
		json.dump(dict(property=prop, seed=seed, tier=ev["tier"], **v), open(path, "w"), indent=1)
		print("%s case %s: %s: %s" % (v["driver"], v["case"], v["key"], v["detail"][:1500]))
		if v["trail"]: print("  " + v["trail"][:1500].replace("\n", "\n  "))
		print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, V)))
	print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s" % (prop, evals, len(hashes), len(real), time.time() - t0))
	for e in errors: print("ERROR:", e)
	if real: sys.exit(1)
	if not hashes:
		print("nothing non-trivial was observed: the workload no longer exercises the property")
		path = os.path.join("replays", prop + "-vacuous.json"); json.dump(dict(property=prop, seed=seed, key="vacuous", driver=cfg["parts"][0]["driver"], case=0), open(os.path.join(V, path), "w"))
		print("VIOLATION property=%s replay=%s" % (prop, path)); sys.exit(1)
	sys.exit(2 if errors else 0)
main()
