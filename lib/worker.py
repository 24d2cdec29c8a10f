"""Runs one shard of one sub-check, or replays one case.  Not called by hand:
see check.py."""
import importlib, json, os, resource, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import vp

def run_case(s, case, known):
    rec = vp.Rec(known)
    try:
        s.run(case, rec)
    except vp.Skip:
        pass
    except vp.Fail:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if "/checks/" in f.filename]
        sig = f"exception:{type(e).__name__}:{(loc or ['?'])[-1]}"
        if sig in rec.known:
            rec.known_hits.append(sig)
        else:
            raise vp.Fail(sig, "".join(traceback.format_exception_only(e)).strip()[-1500:] +
                          "\n" + "".join(traceback.format_tb(e.__traceback__)[-3:])) from None
    return rec

def main():
    job = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if job.get("mem", 1):
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    importlib.import_module(job["module"])
    s = vp.SUBS[(job["prop"], job["sub"])]
    known = job.get("known", [])
    out = {"evaluations": 0, "nontrivial": [], "labels": {}, "skips": {}, "samples": [],
           "known": {}, "fail": None, "stopped": False}

    if job["mode"] == "replay":
        case = job["case"]
        try:
            rec = run_case(s, case, known)
            out["known"] = {k: 1 for k in rec.known_hits}
        except vp.Fail as e:
            out["fail"] = {"case": case, "sig": e.sig, "msg": e.msg}
        json.dump(out, open(job["out"], "w"), default=vp._default)
        return

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = job.get("shrink_s", 30)
    t0 = time.time()
    seen = set()
    state = {"fail": None, "failtime": None}
    cur = open(job["cur"], "w")

    def body(case):
        now = time.time()
        if state["fail"] is None and now - t0 > job["budget"]:
            out["stopped"] = True
            return
        txt = vp.jdump(case)
        cur.seek(0); cur.write(txt); cur.truncate(); cur.flush()
        case = json.loads(txt)          # what a replay will see
        try:
            rec = run_case(s, case, known)
        except vp.Fail as e:
            # keep shrinking on the same signature only
            if state["fail"] is None or state["fail"]["sig"] == e.sig:
                state["fail"] = {"case": case, "sig": e.sig, "msg": e.msg}
                raise
            return
        if state["fail"] is None:
            out["evaluations"] += 1
            h = vp.chash(case)
            if rec.nontrivial and h not in seen:
                seen.add(h)
                out["nontrivial"].append(h)
                if len(out["samples"]) < 4 and len(txt) < 4000:
                    out["samples"].append(case)
            for l in rec.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if rec.skipped:
                out["skips"][rec.skipped] = out["skips"].get(rec.skipped, 0) + 1
            for k in rec.known_hits:
                out["known"][k] = out["known"].get(k, 0) + 1

    phases = [Phase.generate] + ([Phase.shrink] if s.shrink else [])
    st = s.strategy() if callable(s.strategy) else s.strategy
    test = settings(max_examples=job["n"], database=None, deadline=None, phases=phases,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck))(
        hypothesis.seed(job["seed"])(given(st)(body)))
    try:
        test()
    except vp.Fail:
        pass
    except Exception as e:
        if state["fail"] is None:
            raise
    out["fail"] = state["fail"]
    json.dump(out, open(job["out"], "w"), default=vp._default)

main()
