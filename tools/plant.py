"""plant.py SPEC.py...: make seeded/<id>/ from a spec that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (python source).
Applies the change in /repo, builds, tests, runs demo and check, undoes it.  --check-only ID.. reruns the check on stored patches."""
import sys, os, json, subprocess, re
V = "/verif"; R = "/repo"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def restore():
	sh("git -C /repo checkout -- .")
def tests_ok():
	sh("bash /opt/vp/test.sh /tmp/t_plant.json")
	t = json.load(open("/tmp/t_plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))
	b = b if isinstance(b,list) else b.get("stable") or b.get("passed")
	return [x for x in b if x not in t["passed"]]
def demo(d): return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
def check(prop):
	r = sh("./run.sh %s" % prop, cwd=V); return r.returncode, r.stdout
def main():
	args = sys.argv[1:]; only = "--check-only" in args; args = [a for a in args if not a.startswith("--")]
	assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
	for a in args:
		if only:
			d = V+"/seeded/"+a; m = json.load(open(d+"/meta.json")); prop = m["property"]
			r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
			rc, out = check(prop); restore(); print("%-28s %s rc=%d %s" % (a, prop, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % prop in out else "MISSED")); continue
		ns = {}; exec(open(a).read(), ns); d = V+"/seeded/"+ns["ID"]; os.makedirs(d, exist_ok=True)
		open(d+"/demo.py","w").write(ns["DEMO"]); open(d+"/demo.sh","w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
		json.dump({"property":ns["PROP"],"needs":ns["NEEDS"],"what_it_breaks":ns["BREAKS"]}, open(d+"/meta.json","w"), indent=1)
		r0 = demo(d); print(ns["ID"], "clean demo rc", r0.returncode, r0.stdout[-300:] if r0.returncode else "")
		try:
			for f, o, n in ns["EDITS"]:
				s = open(R+"/"+f).read(); assert s.count(o) == 1, (f, o, s.count(o)); open(R+"/"+f,"w").write(s.replace(o,n))
			open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
			b = sh("bash /opt/vp/build.sh"); print("  build", b.returncode)
			print("  tests missing", tests_ok())
			r1 = demo(d); print("  bug demo rc", r1.returncode, r1.stdout.strip()[-200:])
			rc, out = check(ns["PROP"]); print("  check rc", rc, "CAUGHT" if rc == 1 else "MISSED", out[-400:].replace("\n","\n    "))
		finally: restore()
		if any(f.endswith((".c",".f90",".h",".pyx",".cpp",".in")) or "cython" in f for f,_,_ in ns["EDITS"]): sh("bash /opt/vp/build.sh")
main()
