#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--sub NAME] [--replay FILE] [-v]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import argparse, glob, hashlib, json, os, re, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
BUILD = os.environ.get("CT_BUILD", os.path.join(VERIF, ".build"))
VENV = "/opt/cantera-venv/bin/python"
HANG = 240      # one case, normally well under a second or two

def env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_LIBRARY_PATH", "CANTERA_DATA")}
    e.update(PYTHONPATH=os.path.join(BUILD, "py"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
             ASAN_OPTIONS="detect_leaks=0", CT_BUILD=BUILD, VERIF_DIR=VERIF)
    return e

class Job:
    def __init__(self, job, tmp):
        self.job = job
        k = f"{job['sub']}-{job['mode']}-{job.get('shard', 0)}-{time.time_ns()}"
        job["out"] = os.path.join(tmp, k + ".out")
        job["cur"] = os.path.join(tmp, k + ".cur")
        self.log = os.path.join(tmp, k + ".log")
        self.cwd = os.path.join(tmp, k + ".d")
        os.makedirs(self.cwd)
        self.t0 = time.time()
        self.p = subprocess.Popen([VENV, os.path.join(VERIF, "lib/worker.py"), json.dumps(job)],
                                  stdout=open(self.log, "w"), stderr=subprocess.STDOUT,
                                  env=env(), cwd=self.cwd, start_new_session=True)
        self.hung = False

    def poll(self):
        if self.p.poll() is not None:
            return True
        try:
            t = os.path.getmtime(self.job["cur"])
        except OSError:
            t = self.t0
        if time.time() - max(t, self.t0) > HANG:
            self.hung = True
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        """(dict or None, how it ended)"""
        if self.hung:
            return None, "hang"
        if os.path.exists(self.job["out"]):
            try:
                return json.load(open(self.job["out"])), "ok"
            except ValueError:
                pass
        tail = open(self.log, errors="replace").read()[-3000:]
        return None, f"died rc={self.p.returncode}: {tail}"

    def case(self):
        try:
            return json.load(open(self.job["cur"]))
        except (OSError, ValueError):
            return None

def wait(j):
    while not j.poll():
        time.sleep(0.02)
    return j.result()

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if not a.no_build:
        r = subprocess.run([sys.executable, os.path.join(VERIF, "lib/mkbuild.py"), "py"])
        if r.returncode:
            print("the tree does not build"); return 2
    tb = time.time() - t0
    mods = glob.glob(os.path.join(VERIF, "checks", f"{a.prop.lower()}_*.py"))
    if len(mods) != 1:
        print("no check for", a.prop); return 2
    module = os.path.basename(mods[0])[:-3]
    # list of sub-checks, from the worker's interpreter
    r = subprocess.run([VENV, "-c", f"""
import sys, json
sys.path[:0] = [{VERIF!r}+'/lib', {VERIF!r}+'/checks']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import vp, {module} as m
print('SUBS'+json.dumps(dict(subs=[dict(name=s.name, quick=s.quick, thorough=s.thorough, shards=s.shards,
 tshards=s.tshards, floor=s.floor, rule=s.rule) for s in vp.SUBS.values() if s.prop == {a.prop!r}], doc=m.__doc__ or '',
 assumptions=getattr(m,'ASSUMPTIONS',[]))))
"""], env=env(), capture_output=True, text=True)
    line = [l for l in r.stdout.splitlines() if l.startswith("SUBS")]
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    if not line:
        # the package does not import or load at all: nothing can be evaluated
        sig = (r.stdout + r.stderr)[-3000:]
        if "Error" in sig and "/checks/" not in sig.split("File")[-1]:
            path = os.path.join(replays, f"{a.prop}-import.json")
            json.dump({"prop": a.prop, "kind": "import", "msg": sig}, open(path, "w"))
            print(sig)
            print(f"VIOLATION property={a.prop} replay={path}")
            return 1
        print(sig); return 2
    info = json.loads(line[0][4:])
    subs = {s["name"]: s for s in info["subs"]}
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
             if k["property"] == a.prop]
    def ksigs(name):
        return sorted({s for k in known if k["sub"] == name for s in k["signatures"]})
    tmp = tempfile.mkdtemp(prefix=f"vp-{a.prop}-")
    try:
        return go(a, info, subs, known, ksigs, tmp, replays, module, t0, tb)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

def go(a, info, subs, known, ksigs, tmp, replays, module, t0, tb):
    base = dict(module=module, prop=a.prop)
    def replay_case(name, case, kn):
        return wait(Job(dict(base, mode="replay", sub=name, case=case, known=kn), tmp))
    if a.replay:
        rp = json.load(open(a.replay))
        if rp.get("kind") == "campaign":
            res, how = wait(Job(dict(rp["job"]), tmp))
        elif rp.get("kind") == "floor":
            print("replay: re-run the check with the recorded seed"); return 2
        else:
            res, how = replay_case(rp["sub"], rp["case"], ksigs(rp["sub"]))
        if res is None or res["fail"]:
            print(how if res is None else json.dumps(res["fail"], indent=1)[:4000].replace("\\n", "\n"))
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        print("replay: holds"); return 0

    budget = 170 if a.tier == "quick" else 3000
    queue = []
    for s in subs.values():
        if a.sub and s["name"] != a.sub:
            continue
        n = int((s["quick"] if a.tier == "quick" else s["thorough"]) * a.scale) or 1
        sh = s["shards"] if a.tier == "quick" else s["tshards"]
        for i in range(sh):
            seed = int(hashlib.sha256(f"{a.seed}/{a.prop}/{s['name']}/{i}".encode()).hexdigest()[:12], 16)
            queue.append(dict(base, mode="run", sub=s["name"], shard=i, seed=seed,
                              n=max(1, n // sh), budget=budget, known=ksigs(s["name"])))
    # interleave so that shards of one sub-check do not all start together
    queue.sort(key=lambda j: (j["shard"], ))
    running, done = [], []
    nproc = int(os.environ.get("CT_JOBS", "8"))
    bad = None
    stop = False
    while (queue and not stop) or running:
        while queue and not stop and len(running) < nproc:
            running.append(Job(queue.pop(0), tmp))
        for j in list(running):
            if j.poll():
                running.remove(j)
                res, how = j.result()
                done.append((j, res, how, time.time() - j.t0))
                if res is None or res["fail"]:
                    stop = True
        if stop and running:
            # let the others finish briefly, then stop them: one violation is enough
            tend = time.time() + 20
            while running and time.time() < tend:
                for j in list(running):
                    if j.poll():
                        running.remove(j); res, how = j.result()
                        done.append((j, res, how, time.time() - j.t0))
                time.sleep(0.05)
            for j in running:
                j.kill()
            running = []
        time.sleep(0.02)

    violations, inconclusive = [], []
    for j, res, how, dt in done:
        name = j.job["sub"]
        if res is not None and not res["fail"]:
            continue
        if res is not None:
            f = res["fail"]; kind = "case"
        else:
            c = j.case()
            f = {"case": c, "sig": "hang" if how == "hang" else "crash", "msg": how}
            kind = "case" if c is not None else "campaign"
        # confirm in fresh processes
        again = 0
        if kind == "case":
            for _ in range(1 if f["sig"] == "hang" else 3):
                r2, h2 = replay_case(name, f["case"], ksigs(name))
                again += r2 is None or bool(r2["fail"])
            if f["sig"] == "hang" and again: again = 3
        if kind == "case" and again == 3:
            rp = {"kind": "case", "prop": a.prop, "sub": name, "sig": f["sig"], "msg": f["msg"], "case": f["case"]}
        else:
            job = dict(j.job)
            r2, h2 = wait(Job(dict(job), tmp))
            if r2 is not None and not r2["fail"]:
                inconclusive.append(f"{name}: {f['sig']}: {f['msg'][:400]}: not reproduced")
                continue
            rp = {"kind": "campaign", "prop": a.prop, "sub": name, "sig": f["sig"], "msg": f["msg"],
                  "case": f["case"], "job": job}
        path = os.path.join(replays, f"{a.prop}-{name}-{hashlib.sha1(json.dumps(rp, sort_keys=True).encode()).hexdigest()[:10]}.json")
        json.dump(rp, open(path, "w"), indent=1)
        violations.append((rp, path))
        break

    # totals
    tot = {"evaluations": 0, "distinct": set()}
    per = {}
    for j, res, how, dt in done:
        if res is None:
            continue
        p = per.setdefault(j.job["sub"], dict(evaluations=0, nontrivial=set(), labels={}, skips={}, samples=[],
                                               known={}, cpu_s=0.0, stopped_early=False))
        p["evaluations"] += res["evaluations"]
        p["nontrivial"] |= set(res["nontrivial"])
        p["cpu_s"] = round(p["cpu_s"] + dt, 2)
        p["stopped_early"] |= res["stopped"]
        for key in ("labels", "skips", "known"):
            for k, v in res[key].items():
                p[key][k] = p[key].get(k, 0) + v
        if len(p["samples"]) < 2:
            p["samples"] += res["samples"][:2 - len(p["samples"])]
    if not violations and not a.sub and a.scale >= 1:
        for name, p in per.items():
            fl = 0.5 * subs[name]["floor"]     # guards against a collapse of the search only
            if fl and p["evaluations"] >= 20 and len(p["nontrivial"]) < fl * p["evaluations"]:
                rp = {"kind": "floor", "prop": a.prop, "sub": name, "seed": a.seed, "tier": a.tier,
                      "msg": f"only {len(p['nontrivial'])} of {p['evaluations']} cases could be decided "
                             f"(expected at least {fl:.0%}); refusals: {p['skips']}"}
                path = os.path.join(replays, f"{a.prop}-{name}-floor.json")
                json.dump(rp, open(path, "w"), indent=1)
                violations.append((rp, path))
                break
    # recorded findings: each has its own failing case
    kf_lines = []
    if not violations and not a.sub:
        for k in known:
            if "case" not in k:
                continue
            res, how = replay_case(k["sub"], k["case"], ksigs(k["sub"]))
            if res is not None and not res["fail"] and set(res["known"]) & set(k["signatures"]):
                kf_lines.append(f"KNOWN-FINDING: property={a.prop} {k['id']}: {k['what']}")
    wall = time.time() - t0
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": "exploration", "wall_s": round(wall, 2), "violations": len(violations),
          "assumptions": info["assumptions"],
          "coverage": {
              "evaluations": sum(p["evaluations"] for p in per.values()),
              "distinct_nontrivial": sum(len(p["nontrivial"]) for p in per.values()),
              "rule": info["doc"].strip() + "\n" + "\n".join(f"{s['name']}: {s['rule']}" for s in subs.values()),
              "samples": [{"sub": n, "case": c} for n, p in per.items() for c in p["samples"]],
              "build_s": round(tb, 2),
              "per_sub": {n: {**{k: v for k, v in p.items() if k not in ("nontrivial", "samples")},
                              "distinct_nontrivial": len(p["nontrivial"])} for n, p in per.items()},
              "inconclusive": inconclusive}}
    os.makedirs(a.evidence, exist_ok=True)
    if not a.sub:
        json.dump(ev, open(os.path.join(a.evidence, f"{a.prop}.json"), "w"), indent=1)
    for n, p in sorted(per.items()):
        print(f"  {a.prop}/{n}: {p['evaluations']} cases, {len(p['nontrivial'])} non-trivial, {p['cpu_s']:.1f} s"
              + (" (stopped early)" if p["stopped_early"] else ""))
        if a.v:
            print("     labels", dict(sorted(p["labels"].items(), key=lambda x: -x[1])[:25]))
            print("     skips ", p["skips"], " known", p["known"])
    for l in inconclusive:
        print("inconclusive:", l)
    for l in kf_lines:
        print(l)
    print(f"{a.prop} {a.tier} seed={a.seed}: build {tb:.1f} s, total {wall:.1f} s")
    for rp, path in violations:
        print(json.dumps({k: rp[k] for k in rp if k in ("sub", "sig", "case")}, default=str)[:3000])
        print(rp["msg"][:3000])
        print(f"VIOLATION property={a.prop} replay={path}")
    return 1 if violations else 0

sys.exit(main())
