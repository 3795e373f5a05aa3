import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
try: from checks import NOT_APPLICABLE as NA
except ImportError: pass
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[], notes="Every check builds the library from /repo's working tree itself (build.sh); no hooks are needed in /repo: the monitors observe through the platform, crypto and network seams the library already has.")
for i in ids:
	if i in PROPS:
		c = PROPS[i]
		m["checks"].append(dict(property=i, quick_cmd="./run.py " + i, thorough_cmd="./run.py " + i + " --thorough", technique=c["technique"], level=c["level"], level_note=c["note"]))
	else:
		m["not_applicable"].append(dict(property=i, reason=NA.get(i, "not claimed yet: its check is still being built")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
