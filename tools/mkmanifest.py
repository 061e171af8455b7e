"""Writes MANIFEST.json from the check modules present and properties.jsonl."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R+"/properties.jsonl")]
NA = {"S01": "A statement about a probability distribution over seeds: no finite enumeration of executions decides it, and estimating a covariance from draws would be sampling, which is outside this family."}
def docline(fn, key):
	s = open(fn).read()
	m = re.search(r'^%s\s*=\s*(\(?".*?"\)?)$' % key, s, re.M)
	return eval(m.group(1)) if m else ""
checks, na = [], []
for p in props:
	fn = "%s/mc/props/%s.py" % (R, p["id"].lower())
	if os.path.exists(fn):
		checks.append({"property": p["id"], "quick_cmd": "./run.sh %s --tier quick" % p["id"], "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
			"technique": docline(fn, "TECHNIQUE") or "bounded exhaustive exploration of the real code against an element-by-element reference model",
			"level": "model_checking",
			"level_note": "Every case within the stated bound is run on the code in /repo and compared with an independent reference model; nothing is sampled. Bounds: %s. Trusts the reference model, numpy and (where used) wcslib/scipy; sizes beyond the bound are not covered." % docline(fn, "BOUNDS")})
	else:
		na.append({"property": p["id"], "reason": NA.get(p["id"], "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "bash /opt/vp/build.sh ext", "checks": checks, "not_applicable": na,
	"notes": "No hooks are needed: all checks use the public interface. run.sh rebuilds /repo's extensions before each check. Replay: see DESIGN.md."}, open(R+"/MANIFEST.json","w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
