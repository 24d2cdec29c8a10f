"""Developer tool: which recorded findings still reproduce?"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir("/tmp")
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import glob, importlib, vp
os.environ["VERIF_DIR"] = V
F = json.load(open(V + "/known_findings.json"))["findings"]
for k in F:
    m = glob.glob(f"{V}/checks/{k['property'].lower()}_*.py")[0]
    importlib.import_module(os.path.basename(m)[:-3])
    s = vp.SUBS[(k["property"], k["sub"])]
    r = vp.Rec({x for q in F if q["property"] == k["property"] and q["sub"] == k["sub"] for x in q["signatures"]})
    try:
        s.run(k["case"], r)
    except Exception as e:
        print(k["id"], "raises", str(e)[:200])
    print(k["id"], "ok" if set(r.known_hits) & set(k["signatures"]) else "STALE")
