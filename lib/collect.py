"""Developer tool: run a sub-check over N generated cases and tabulate every failing
signature instead of stopping at the first.  collect.py MODULE SUB N [SEED]"""
import collections, importlib, json, os, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + "/lib", VERIF + "/checks"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import vp, hypothesis
from hypothesis import HealthCheck, Phase, settings, given
m = importlib.import_module(sys.argv[1])
n = int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for (prop, name), s in vp.SUBS.items():
    if sys.argv[2] not in ("all", name) or prop.lower() != sys.argv[1].split("_")[0]:
        continue
    fails = collections.Counter(); first = {}; labels = collections.Counter(); skips = collections.Counter()
    st = {"n": 0, "nt": 0, "slow": 0}
    class R(vp.Rec):
        def fail(self, sig, msg):
            fails[sig] += 1
            first.setdefault(sig, []).append((msg, self.case))
    def body(case):
        case = json.loads(vp.jdump(case))
        r = R(); r.case = case; st["n"] += 1
        t = time.time()
        try:
            s.run(case, r)
        except vp.Skip as e:
            skips[str(e)[:100]] += 1
        except Exception as e:
            tb = traceback.format_exc()
            sig = "EXC " + type(e).__name__ + " " + str(e).strip().strip("*").strip()[:150]
            fails[sig] += 1
            first.setdefault(sig, []).append((tb[-1800:], case))
        st["slow"] = max(st["slow"], time.time() - t)
        st["nt"] += r.nontrivial
        for l in r.labels: labels[l] += 1
    strat = s.strategy() if callable(s.strategy) else s.strategy
    t0 = time.time()
    settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate],
             suppress_health_check=list(HealthCheck))(hypothesis.seed(seed)(given(strat)(body)))()
    dt = time.time() - t0
    print(f"== {name}: {st['n']} cases, {st['nt']} non-trivial, {dt:.1f} s ({dt/max(1,st['n'])*1000:.0f} ms/case, max {st['slow']:.1f} s)")
    print("   labels", dict(labels.most_common(int(os.environ.get("LAB", 8)))))
    print("   skips", dict(skips.most_common(12)))
    for sig, c in fails.most_common(40):
        msg, case = min(first[sig], key=lambda x: len(json.dumps(x[1])))
        L = int(os.environ.get("L", 300))
        print(f"  {c:5d} {sig}\n        {msg[-L:] if sig.startswith('EXC') else msg[:L]}".rstrip())
        if os.environ.get("DUMP"):
            fn = os.environ["DUMP"] + "".join(x if x.isalnum() else "_" for x in sig)[:50] + ".json"
            json.dump(case, open(fn, "w"))
        if os.environ.get("CASES"):
            print("        ", json.dumps(case)[:int(os.environ["CASES"])])
