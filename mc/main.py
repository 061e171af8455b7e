"""Driver: rebuilds /repo's extensions, farms the units of one property's
exploration out to worker processes, collects violations, writes the evidence
file and replay files.  The driver itself never imports the code under test, so
a crash in compiled code is seen as a worker death and reported as a violation."""
import sys, os, json, time, argparse, subprocess, tempfile, shutil, importlib, signal
import multiprocessing as mp
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNIT_TIMEOUT = {"quick": 780, "thorough": 5*3600}

def build():
	lock = open(os.path.join(tempfile.gettempdir(), ".verif_build.lock"), "w")
	import fcntl
	fcntl.flock(lock, fcntl.LOCK_EX)
	for attempt in range(2):
		r = subprocess.run(["bash", "/opt/vp/build.sh", "ext"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
		if r.returncode == 0: break
	lock.close()
	if r.returncode != 0:
		sys.stderr.write(r.stdout[-4000:])
		print("ERROR: /repo does not build")
		sys.exit(2)

def no_rebuild():
	"""build() has just brought the extensions up to date: keep the editable
	loader from running ninja again in every (concurrent) worker."""
	for f in sys.meta_path:
		if type(f).__name__ == "MesonpyMetaFinder": f._build_cmd = ["true"]

def load_findings(prop):
	"""known_findings.txt: lines 'known: {json}' suppress exactly the listed
	site+case; lines 'fixed: ...' are documentation and suppress nothing."""
	out = []
	fn = os.path.join(ROOT, "known_findings.txt")
	if os.path.exists(fn):
		for line in open(fn):
			if line.startswith("known:"):
				d = json.loads(line[6:])
				if d["property"] == prop: out.append(d)
	return out

def match(finding, v):
	if finding["site"] != v["site"]: return False
	if "messages" in finding and not any(m in v["msg"] for m in finding["messages"]): return False
	cases = finding.get("cases")
	if cases is None: return True
	return any(all(v["case"].get(k) == val for k, val in c.items()) for c in cases)

def all_units(mod, tier):
	from . import fwd
	prop = mod.__name__.split(".")[-1].upper()
	return list(mod.units(tier)) + (fwd.unit(prop) if prop in fwd.table() else [])

def worker(conn, modname, tier, seed, scratch):
	os.dup2(2, 1)
	no_rebuild()
	os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
	os.environ["TMPDIR"] = scratch
	wdir = tempfile.mkdtemp(dir=scratch)
	os.chdir(wdir)
	import faulthandler, warnings
	faulthandler.enable()
	warnings.simplefilter("ignore")
	import mc.core as core
	try:
		import numpy as np
		np.seterr(all="ignore")
		mod = importlib.import_module(modname)
		units = {u[0]: u for u in all_units(mod, tier)}
	except BaseException as e:
		import traceback
		conn.send(("fatal", traceback.format_exc()))
		return
	conn.send(("ready", None))
	while True:
		name = conn.recv()
		if name is None: return
		ctx = core.Ctx(name, tier, seed, wdir)
		t0  = time.time()
		u = units[name]
		try:
			u[1](ctx, *u[2:])
		except core.StopUnit:
			pass
		except BaseException as e:
			import traceback
			ctx.record("harness:"+name, {"unit": name}, "exception outside a case: " + traceback.format_exc()[-1500:])
		warnings.simplefilter("ignore")
		conn.send(("done", ctx.result(time.time()-t0)))

def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("prop")
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
	ap.add_argument("--replay")
	ap.add_argument("--unit", default=None)
	ap.add_argument("--no-build", action="store_true")
	ap.add_argument("-j", type=int, default=8)
	ap.add_argument("-v", action="store_true")
	args = ap.parse_args()
	prop = args.prop
	tier = args.tier if args.tier in ("quick","thorough") else "quick"
	try: seed = int(os.environ.get("VERIF_SEED") or 1)
	except ValueError: seed = 1
	t0 = time.time()
	if not args.no_build: build()
	modname = "mc.props." + prop.lower()
	scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
	try:
		code = run(args, prop, tier, seed, modname, scratch, t0)
	finally:
		shutil.rmtree(scratch, ignore_errors=True)
	sys.exit(code)

def run(args, prop, tier, seed, modname, scratch, t0):
	# the unit list is obtained in a child so that the parent stays clean
	ctx = mp.get_context("fork")
	def get_units(conn):
		os.dup2(2, 1)
		no_rebuild()
		os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
		try:
			mod = importlib.import_module(modname)
			conn.send(([u[0] for u in all_units(mod, tier)], getattr(mod, "RULE", ""), getattr(mod, "ASSUME", []), getattr(mod, "BOUNDS", ""), getattr(mod, "EXHAUSTIVE", True)))
		except BaseException:
			import traceback
			conn.send(traceback.format_exc())
	a, b = ctx.Pipe()
	p = ctx.Process(target=get_units, args=(b,)); p.start(); b.close()
	try: got = a.recv()
	except EOFError: got = "the code under test could not be imported (process died)"
	p.join()
	violations, known, stats = [], {}, {"states": set(), "transitions": 0, "traces": 0, "samples": [], "units": 0, "skipped": 0}
	findings = load_findings(prop)
	def add_violation(v):
		for i, f in enumerate(findings):
			if match(f, v):
				known[i] = f
				return
		violations.append(v)
	if isinstance(got, str):
		# importing the package (or building the reference fixtures) failed
		add_violation({"unit": "import", "site": "import", "case": {}, "msg": got})
		units, rule, assume, bounds, exh = [], "", [], "", False
	else:
		units, rule, assume, bounds, exh = got
	replay = None
	if args.replay:
		replay = json.load(open(args.replay))
		units  = [u for u in units if u == replay["unit"]]
	if args.unit:
		units  = [u for u in units if args.unit in u]
	total = list(units)
	queue = list(units)
	conns = {}
	deadline_unit = UNIT_TIMEOUT[tier]
	def start():
		a, b = ctx.Pipe()
		p = ctx.Process(target=worker, args=(b, modname, tier, seed, scratch)); p.start(); b.close()
		conns[a] = dict(proc=p, unit=None, t=time.time())
	for i in range(min(args.j, len(queue))): start()
	while conns:
		ready = wait(list(conns), timeout=5)
		for c in ready:
			info = conns[c]
			try: msg = c.recv()
			except (EOFError, ConnectionResetError):
				info["proc"].join()
				if info["unit"] is not None:
					add_violation({"unit": info["unit"], "site": "crash:"+info["unit"], "case": {"unit": info["unit"]}, "msg": "the process running this unit died with exit code %s" % info["proc"].exitcode})
				elif queue:
					add_violation({"unit": "import", "site": "crash:import", "case": {}, "msg": "worker died during import"}); queue.clear()
				del conns[c]
				if queue: start()
				continue
			if msg[0] == "fatal":
				add_violation({"unit": "import", "site": "import", "case": {}, "msg": msg[1]})
				queue.clear(); info["proc"].join(); del conns[c]; continue
			if msg[0] == "done":
				res = msg[1]
				for v in res["violations"]: add_violation(v)
				stats["states"] |= res["states"]
				stats["transitions"] += res["transitions"]
				stats["traces"] += res["traces"]
				stats["units"] += 1
				stats["skipped"] += res["dropped"]
				if len(stats["samples"]) < 12: stats["samples"] += res["samples"][:1]
				if args.v: print("unit %-40s %7.2fs traces %8d transitions %8d states %7d viol %d" % (info["unit"], res["time"], res["traces"], res["transitions"], len(res["states"]), len(res["violations"])), flush=True)
			if queue:
				info["unit"] = queue.pop(0); info["t"] = time.time()
				c.send(info["unit"])
			else:
				c.send(None); info["proc"].join(); del conns[c]
		for c in list(conns):
			info = conns[c]
			if info["unit"] is not None and (time.time()-info["t"] > deadline_unit or (tier == "quick" and time.time()-t0 > 840)):
				os.kill(info["proc"].pid, signal.SIGKILL); info["proc"].join()
				add_violation({"unit": info["unit"], "site": "hang:"+info["unit"], "case": {"unit": info["unit"]}, "msg": "this unit did not terminate"})
				del conns[c]
				if queue and time.time()-t0 < 800: start()
	full = replay is None and args.unit is None
	vacuous = full and (stats["traces"] == 0 or len(stats["states"]) < 2) and not violations
	wall = time.time()-t0
	evidence = {
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": {
			"states": len(stats["states"]), "transitions": stats["transitions"],
			"traces_validated_against_impl": stats["traces"],
			"samples": stats["samples"], "exhaustive": bool(exh) and stats["skipped"] == 0 and stats["units"] == len(total) and full,
			"rule": rule, "bounds": bounds, "units": stats["units"],
			"state_definition": "distinct reference-model values (canonical digests) the implementation was compared with",
			"transition_definition": "individual comparisons of an observable result of the real code with the model",
			"trace_definition": "enumerated cases (input configurations, operation histories or schedules) run to completion on the real code",
			"cases_not_run_after_a_violation": stats["skipped"],
			"known_findings_reproduced": [f["text"] for f in known.values()],
		},
		"assumptions": list(assume), "wall_s": round(wall, 2), "violations": len(violations),
	}
	if full:
		os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
		with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
			json.dump(evidence, f, indent=1)
	for f in known.values():
		print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
	print("%s tier=%s units=%d traces=%d transitions=%d states=%d wall=%.1fs" % (prop, tier, stats["units"], stats["traces"], stats["transitions"], len(stats["states"]), wall))
	if violations:
		rdir = os.path.join(ROOT, "evidence", "replay")
		os.makedirs(rdir, exist_ok=True)
		sites = set()
		for v in violations:
			if v["site"] in sites: continue
			sites.add(v["site"])
			path = os.path.join(rdir, "%s_%d.json" % (prop, len(sites)))
			v = dict(v, property=prop, tier=tier, how="bash /verif/run.sh %s --tier %s --replay %s" % (prop, tier, path))
			with open(path, "w") as f: json.dump(v, f, indent=1, default=str)
			print("  site=%s case=%s\n    %s" % (v["site"], json.dumps(v["case"], default=str)[:400], v["msg"][-600:].replace("\n", "\n    ")))
			print("VIOLATION property=%s replay=%s" % (prop, path))
			if len(sites) >= 12: break
		return 1
	if vacuous:
		print("ERROR: vacuous exploration")
		return 2
	return 0

if __name__ == "__main__": main()
