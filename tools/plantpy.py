"""plantpy.py SPEC.py...: like plant.py, for python-only changes, in a scratch clone (/tmp/w/plrepo, imported through /tmp/w/pl/sitecustomize.py) so that /repo stays free."""
import sys, os, json, subprocess, re, xml.etree.ElementTree as ET
V = "/verif"; R = "/tmp/w/plrepo"
env = dict(os.environ, PYTHONPATH="/tmp/w/pl", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", DUCC0_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, **kw)
def restore(): sh("git -C %s checkout -- ." % R)
base = json.load(open("/opt/vp/BASELINE.json")); base = base if isinstance(base,list) else base.get("stable") or base.get("passed")
def tests_ok():
	sh("cd %s && OMP_NUM_THREADS=4 DUCC0_NUM_THREADS=4 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/w/junit.xml tests" % R)
	sh("/opt/venv/bin/python /opt/vp/results.py /tmp/w/t.json junit:/tmp/w/junit.xml"); t = json.load(open("/tmp/w/t.json"))
	return [x for x in base if x not in t["passed"]]
def demo(d): return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
def check(prop): r = sh("/opt/venv/bin/python -m mc.main %s --no-build" % prop, cwd=V); return r.returncode, r.stdout
quick = "--quick" in sys.argv
SPECS = []
def spec(id, prop, needs, breaks, edits, demo): SPECS.append(dict(ID=id,PROP=prop,NEEDS=needs,BREAKS=breaks,EDITS=edits,DEMO=demo.strip()+"\n"))
for a in [a for a in sys.argv[1:] if not a.startswith("--")]: exec(open(a).read(), {"spec":spec})
only = [a[7:] for a in sys.argv[1:] if a.startswith("--only=")]
for ns in [s for s in SPECS if not only or s["ID"] in only]:
	d = V+"/seeded/"+ns["ID"]; os.makedirs(d, exist_ok=True)
	open(d+"/demo.py","w").write(ns["DEMO"]); open(d+"/demo.sh","w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
	json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]}, open(d+"/meta.json","w"), indent=1)
	r0 = demo(d); print(ns["ID"], ns["PROP"], "clean demo rc", r0.returncode, r0.stdout[-300:] if r0.returncode else "")
	try:
		for f, o, n in ns["EDITS"]:
			s = open(R+"/"+f).read(); assert s.count(o) == 1, (f, o, s.count(o)); open(R+"/"+f,"w").write(s.replace(o,n))
		open(d+"/patch.diff","w").write(sh("git -C %s diff" % R).stdout)
		if not quick: print("  tests missing", tests_ok())
		r1 = demo(d); print("  bug demo rc", r1.returncode, r1.stdout.strip()[-150:].replace("\n"," / "))
		rc, out = check(ns["PROP"]); sites = re.findall(r"(?m)^  site=(.*)", out); print("  check rc", rc, "CAUGHT" if rc == 1 else "MISSED", "; ".join(x[:90] for x in sites[:2])); sys.stdout.flush()
	finally: restore()
