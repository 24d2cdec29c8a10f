"""P13: a phase brought to equilibrium is at equilibrium.
Oracle: the Karush-Kuhn-Tucker conditions of the minimum Gibbs energy, which for an ideal gas are
necessary and sufficient (every species' chemical potential is the sum of its elements'
potentials), the elements, and the two properties held constant.  Non-trivial: two or more
species exceed 1e-6 at equilibrium and the composition changed."""
import functools
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, eqgen
from gen import uni, logu, fractions

PAIRS = ["TP", "TP", "TV", "HP", "UV", "SP", "SV"]
SOLVERS = ["auto", "auto", "element_potential", "gibbs", "vcs"]
LIB = ["h2o2.yaml", "gri30.yaml", "air.yaml", "airNASA9.yaml", "SiF4_NH3_mec.yaml", "gri30_highT.yaml", "ohn.yaml"]

@functools.lru_cache(None)
def libnames(f):
    p = None
    g = ct.Solution(f, "gas" if "SiF4" in f else "")
    return tuple(g.species_names)

def prop(g, c):
    return {"T": g.T, "P": g.P, "H": g.enthalpy_mass, "S": g.entropy_mass, "U": g.int_energy_mass, "V": 1 / g.density}[c]

def scale(g, c):
    return {"T": g.T, "P": g.P, "H": g.cp_mass * g.T, "S": g.cp_mass, "U": g.cp_mass * g.T, "V": 1 / g.density}[c]

def elements(g):
    return np.array([g.elemental_mass_fraction(m) for m in range(g.n_elements)])

def kkt(rec, sig, g, tol):
    A = eqgen.formula(g)
    X = g.X
    mu = g.chemical_potentials / (ct.gas_constant * g.T)
    mu0 = g.standard_chem_pot if hasattr(g, "standard_chem_pot") else None
    ok = X > 1e-200
    lam = eqgen.potentials(A, np.where(ok, mu, 0), X)
    r = mu - A @ lam
    # every element of a species must be fixed by the species present
    big = X > 1e-12
    rank = np.linalg.matrix_rank(A[big]) if big.any() else 0
    for k in np.nonzero(ok)[0]:
        if X[k] <= 1e-12 and np.linalg.matrix_rank(np.vstack([A[big], A[k]])) > rank:
            continue
        t = tol * (1 + 0.01 * abs(mu[k])) if X[k] > 1e-8 else tol * 100 * (1 + 0.01 * abs(mu[k]))
        if X[k] > 1e-14:
            rec.close(sig + ":potentials", r[k], 0, 0, t, f"(mu - sum a*lambda)/RT of {g.species_name(k)}, X={X[k]:.3g}, T={g.T:.2f}, P={g.P:.4g}")
        else:
            rec.check(sig + ":absent", r[k] > -0.1, lambda: f"{g.species_name(k)} should be present: r={r[k]} X={X[k]}")
    return lam

@st.composite
def gas_case(draw):
    lib = draw(st.sampled_from([None, None, None] + LIB))
    c = {"lib": lib}
    if lib:
        n = len(libnames(lib)); sp = libnames(lib)
        pick = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6, unique=True))
        f = draw(fractions(len(pick), zeros=False))
        c["X"] = dict(zip([sp[i] for i in pick], f))
    else:
        sp, els = draw(eqgen.species())
        c["sp"] = sp
        pick = draw(st.lists(st.integers(0, len(sp) - 1), min_size=1, max_size=6, unique=True))
        c["X"] = dict(zip([sp[i] for i in pick], draw(fractions(len(pick), zeros=False))))
    c["T"] = draw(uni(300, 3500)); c["P"] = draw(logu(1e2, 2e7)); c["XY"] = draw(st.sampled_from(PAIRS))
    c["solver"] = draw(st.sampled_from(SOLVERS)); c["pre"] = draw(st.one_of(st.none(), uni(400, 3000)))
    c["est"] = draw(st.sampled_from([0, 0, 1, -1])); c["rtol"] = draw(st.sampled_from([1e-9, 1e-9, 1e-11, 1e-7]))
    return c

def make(c):
    return ct.Solution(c["lib"], "gas" if "SiF4" in c["lib"] else "") if c["lib"] else eqgen.gas(c["sp"])

@sub("P13", "gas", gas_case, quick=1600, thorough=40000, shards=4, tshards=8, floor=0.3,
     rule="ideal gases over up to 4 elements (subsets of 748 NASA species) and shipped mechanisms, all pairs and solvers")
def gas(c, rec):
    g = make(c)
    X0 = np.array([c["X"].get(n, 0.0) for n in g.species_names])
    g.TPX = c["T"], c["P"], X0
    E0 = elements(g); a, b = c["XY"]
    pa, pb = prop(g, a), prop(g, b)
    s1 = g.state
    if c["pre"]:
        # another starting point with the same elements and properties
        try:
            g.TP = c["pre"], c["P"]
            g.equilibrate("TP")
            setattr(g, {"TV": "TD", "SV": "SV", "UV": "UV"}.get(c["XY"], c["XY"]), (pa, 1 / pb if c["XY"] == "TV" else pb))
        except (ct.CanteraError, ValueError):
            g.state = s1
        if abs(elements(g) - E0).max() > 1e-7:
            rec.fail("pre:elements", f"{elements(g)} {E0}")
        E0 = elements(g)
    if not (200 < g.T < 4500):
        rec.skip("temperature out of range")
    easy = c["solver"] == "auto" and c["est"] == 0 and c["rtol"] == 1e-9
    try:
        g.equilibrate(c["XY"], solver=c["solver"], rtol=c["rtol"], estimate_equil=c["est"])
    except (ct.CanteraError, RuntimeError, ValueError) as e:
        if easy and c["lib"] and 500 < c["T"] < 3000 and 1e4 < c["P"] < 1e6:
            rec.fail("convergence", f"{c['XY']}: {str(e)[:300]}")
        rec.skip("not converged: " + c["solver"])
    sg = c["solver"]
    if g.T < 150 or g.T > 6000:
        rec.skip("left the temperature range")
    el = 1e-7 if sg in ("auto", "element_potential") else 1e-8
    rec.close(sg + ":elements", elements(g), E0, 1e-7 if c["rtol"] <= 1e-9 else 1e-5, 1e-9 if c["rtol"] <= 1e-9 else 1e-7, f"element mass fractions {g.element_names}")
    pt = 1e-6 if c["rtol"] <= 1e-9 else 1e-4
    rec.close(sg + ":" + c["XY"] + ":" + a, prop(g, a), pa, 0, pt * scale(g, a), "held constant")
    rec.close(sg + ":" + c["XY"] + ":" + b, prop(g, b), pb, 0, pt * scale(g, b), "held constant")
    rec.close("normalized", g.X.sum(), 1, 1e-9)
    rec.check("positive", (g.X >= 0).all(), f"{g.X}")
    kkt(rec, sg, g, 1e-6 if c["rtol"] <= 1e-9 else 1e-4)
    if (g.X > 1e-6).sum() > 1 and np.abs(g.X - X0 / X0.sum()).max() > 1e-6:
        rec.hit(c["solver"] + " " + c["XY"])

@st.composite
def real_case(draw):
    sp, els = draw(eqgen.species(nmax=8, ions=False))
    c = {"sp": sp, "model": draw(st.sampled_from(["Redlich-Kwong", "Peng-Robinson"])),
         "crit": [[draw(uni(50, 600, 5000)), draw(uni(2e6, 2e7, 5000)), draw(uni(-0.1, 0.6, 700))] for _ in sp]}
    pick = draw(st.lists(st.integers(0, len(sp) - 1), min_size=1, max_size=6, unique=True))
    c["X"] = dict(zip([sp[i] for i in pick], draw(fractions(len(pick), zeros=False))))
    c["T"] = draw(uni(700, 3000)); c["P"] = draw(logu(1e5, 3e7)); c["XY"] = draw(st.sampled_from(PAIRS))
    c["solver"] = draw(st.sampled_from(SOLVERS))
    return c

@sub("P13", "real-gas", real_case, quick=700, thorough=20000, shards=2, tshards=8, floor=0.3,
     rule="Redlich-Kwong and Peng-Robinson gases with generated critical parameters")
def real(c, rec):
    t = eqgen.table("nasa_gas.yaml")
    sps = []
    for n, (Tc, Pc, w) in zip(c["sp"], c["crit"]):
        d = t[n].input_data
        d["critical-parameters"] = {"critical-temperature": Tc, "critical-pressure": Pc, "acentric-factor": w}
        d.pop("transport", None)
        sps.append(dict(d))
    import json
    y = {"phases": [{"name": "gas", "thermo": c["model"], "species": c["sp"]}], "species": json.loads(json.dumps(sps, default=lambda o: dict(o)))}
    g = ct.Solution(yaml=json.dumps(y), name="gas")
    X0 = np.array([c["X"].get(n, 0.0) for n in g.species_names])
    g.TPX = c["T"], c["P"], X0
    E0 = elements(g); a, b = c["XY"]
    pa, pb = prop(g, a), prop(g, b)
    try:
        g.equilibrate(c["XY"], solver=c["solver"])
    except (ct.CanteraError, RuntimeError, ValueError) as e:
        rec.skip("not converged: " + c["solver"])
    sg = c["solver"]
    if g.T < 500 or g.T > 6000:
        rec.skip("left the temperature range")
    rec.close(sg + ":elements", elements(g), E0, 1e-7, 1e-9, f"element mass fractions {g.element_names}")
    rec.close(sg + ":" + c["XY"] + ":" + a, prop(g, a), pa, 0, 1e-5 * scale(g, a), "held constant")
    rec.close(sg + ":" + c["XY"] + ":" + b, prop(g, b), pb, 0, 1e-5 * scale(g, b), "held constant")
    kkt(rec, sg, g, 1e-5)
    if (g.X > 1e-6).sum() > 1 and np.abs(g.X - X0 / X0.sum()).max() > 1e-6:
        rec.hit(c["solver"] + " " + c["XY"])
