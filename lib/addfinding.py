"""Developer tool: record a defect as a known finding, with the smallest failing case found.
addfinding.py MODULE SUB N SEED ID SIGREGEX WHAT"""
import json, os, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF + "/lib", VERIF + "/checks"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import importlib, vp, hypothesis
from hypothesis import HealthCheck, Phase, settings, given
mod, subn, n, seed, fid, rx, what = sys.argv[1:]
importlib.import_module(mod)
(prop, _), s = next((k, v) for k, v in vp.SUBS.items() if k[1] == subn and k[0].lower() == mod.split("_")[0])
best = {}
class R(vp.Rec):
    def fail(self, sig, msg):
        if re.search(rx, sig):
            L = len(vp.jdump(self.case))
            if sig not in best or L < best[sig][0]:
                best[sig] = (L, self.case)
def body(case):
    case = json.loads(vp.jdump(case))
    r = R(); r.case = case
    try:
        s.run(case, r)
    except Exception as e:
        if not isinstance(e, vp.Skip):
            pass
strat = s.strategy() if callable(s.strategy) else s.strategy
settings(max_examples=int(n), database=None, deadline=None, phases=[Phase.generate],
         suppress_health_check=list(HealthCheck))(hypothesis.seed(int(seed))(given(strat)(body)))()
assert best, "no failing case"
f = VERIF + "/known_findings.json"
k = json.load(open(f))
k["findings"] = [x for x in k["findings"] if x["id"] != fid]
sig0 = min(best, key=lambda q: best[q][0])
k["findings"].append(dict(id=fid, property=prop, sub=subn, signatures=sorted(best), what=what, case=best[sig0][1]))
json.dump(k, open(f, "w"), indent=1)
print(fid, sorted(best))
