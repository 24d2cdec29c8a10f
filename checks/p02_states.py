"""P02: setting and restoring thermodynamic states.
A case is a phase, a target state and an unrelated starting state.  The target's
properties are read from an object put there by temperature, pressure and composition;
another object in the starting state is sent there by one of the supported property
pairs (or by a saved state, or a `state` entry of a phase definition) and must end up
with the same pair of values, composition and, where the pair determines it, temperature
and pressure.  Non-trivial: the setter accepted the target."""
import json, os
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions

R = ct.gas_constant
LIBG = [("gri30.yaml", "gri30", (300, 3000), (1e2, 1e8)), ("airNASA9.yaml", "airNASA9", (300, 8000), (1e2, 1e8)),
        ("h2o2.yaml", "ohmech", (300, 3000), (1e2, 1e8)), ("nDodecane_Reitz.yaml", "nDodecane_IG", (300, 2800), (1e2, 1e8)),
        ("h2o2.yaml", "ohmech-RK", (300, 2500), (1e4, 2e7))]
GEN = ["ideal-gas", "ideal-gas", "Redlich-Kwong", "Peng-Robinson", "ideal-condensed", "ideal-solution-VPSS", "Margules",
       "Redlich-Kister", "fixed-stoichiometry"]

@st.composite
def phase_case(draw, models=GEN, lib=True):
    if lib and draw(st.integers(0, 4)) == 0:
        f, ph, T, P = draw(st.sampled_from(LIBG))
        c = {"lib": [f, ph], "n": 6}
    else:
        m = draw(st.sampled_from(models))
        d = draw(gen.MODELS[m]())
        c = {"model": m, "yaml": d["yaml"], "n": d["n"]}
        T, P = d["T"], d["P"]
        if "Tc" in d:
            T = (max(300, 1.1 * d["Tc"]), 2500)
    c["a"] = [draw(uni(T[0], T[1])), draw(logu(*P)), draw(fractions(c["n"]))]
    c["b"] = [draw(uni(T[0], T[1])), draw(logu(*P)), draw(fractions(c["n"]))]
    return c

def load(c):
    if "lib" in c:
        return ct.Solution(*c["lib"]) if False else ct.ThermoPhase(*c["lib"])
    return ct.Solution(yaml=json.dumps(c["yaml"]))

def comp(p, x):
    x = list(x)
    if len(x) >= p.n_species:
        return np.array(x[:p.n_species])
    v = np.zeros(p.n_species)
    for i, w in enumerate(x):
        v[(i * 7 + 3) % p.n_species] += w
    return v / v.sum()

def put(p, s):
    p.TPX = s[0], s[1], comp(p, s[2])

VAL = {"T": "T", "P": "P", "D": "density", "H": "h", "U": "u", "S": "s", "V": "v"}

def scales(p):
    """Natural size of each quantity, in the current basis."""
    m = 1.0 if p.basis == "molar" else p.mean_molecular_weight
    return {"T": p.T, "P": p.P, "D": p.density, "H": R * p.T / m, "U": R * p.T / m, "S": R / m, "V": p.v}

def read(p):
    out = {}
    for k, n in VAL.items():
        try:
            out[k] = getattr(p, n)
        except NotImplementedError:
            out[k] = None
    return out

@st.composite
def pair_case(draw):
    c = draw(phase_case())
    c["pair"] = draw(st.sampled_from(["TP", "TD", "HP", "UV", "SP", "SV", "DP", "HP", "UV", "SP", "SV"]))
    c["basis"] = draw(st.sampled_from(["mass", "molar"]))
    c["how"] = draw(st.sampled_from(["X", "Y", "after", "dict", "string", "none1", "none2"]))
    return c

@sub("P02", "pairs", pair_case, quick=6000, thorough=150000, shards=6, tshards=8, floor=0.6,
     rule="seven property pairs, mass and molar basis, with mole or mass fractions given as arrays, mappings or strings, or kept")
def pairs(c, rec):
    A, B = load(c), load(c)
    A.basis = B.basis = c["basis"]
    put(A, c["a"])
    put(B, c["b"])
    pair = c["pair"]
    if not A.is_compressible and "D" in pair or not A.is_compressible and "V" in pair:
        rec.skip("incompressible")
    cubic = A.thermo_model in ("Redlich-Kwong", "Peng-Robinson")
    if cubic and pair == "DP":
        rec.skip("not offered by this model: DP")
    va = read(A)
    if va[pair[0]] is None or va[pair[1]] is None:
        rec.skip("property not available")
    X = A.X.copy()
    how = c["how"]
    args = [va[pair[0]], va[pair[1]]]
    if how == "X":
        setattr(B, pair + "X", (*args, X))
    elif how == "Y":
        setattr(B, pair + "Y", (*args, A.Y))
    elif how == "after":
        B.X = X
        setattr(B, pair, args)
    elif how == "dict":
        setattr(B, pair + "X", (*args, {n: 3.0 * x for n, x in zip(A.species_names, X) if x}))
    elif how == "string":
        s = ", ".join(f"{n}:{x!r}" for n, x in zip(A.species_names, map(float, A.Y)) if x)
        setattr(B, pair + "Y", (*args, s))
    else:
        # None keeps the present value of that property
        i = int(how[-1]) - 1
        put(B, c["a"])
        kept = read(B)[pair[i]]
        vb = list(args)
        vb[i] = None
        setattr(B, pair, vb)
        rec.close(f"{pair}:none-keeps", read(B)[pair[i]], kept, 1e-8, 1e-8 * scales(B)[pair[i]])
    vb, sc = read(B), scales(A)
    tag = c.get("model", "lib")
    rec.hit(f"{tag} {pair}")
    for k in pair:
        rec.close(f"{pair}:{k}", vb[k], va[k], 1e-8, 1e-7 * sc[k] * (50 if cubic else 1), f"{tag} T={A.T} P={A.P}")
    rec.close("composition", B.X, X, 1e-10, 1e-14)
    # the pair determines temperature and pressure of gases; for condensed phases P must be in it
    rec.close(f"{pair}:T", B.T, A.T, 1e-5 if cubic else 1e-6, 0, f"{tag} P={A.P}")
    rec.close(f"{pair}:P", B.P, A.P, 1e-4 if cubic else 1e-6, 0, f"{tag} T={A.T}")
    rec.close(f"{pair}:D", B.density, A.density, 1e-4 if cubic else 1e-6, 0)
    rec.check("basis", B.basis == c["basis"])

# ------------------------------------------------------------------ state vectors
@st.composite
def save_case(draw):
    c = draw(phase_case(models=[m for m in gen.MODELS if m not in ("plasma", "Debye-Huckel", "HMW-electrolyte", "ideal-molal-solution")]))
    c["k"] = draw(st.integers(0, 10**6))
    c["xk"] = draw(fractions(c["n"]))
    return c

PR = ["T", "P", "density", "h", "s", "g", "cp", "mean_molecular_weight", "chemical_potentials",
      "partial_molar_enthalpies", "concentrations"]
def allp(p):
    out = {}
    for n in PR:
        try:
            out[n] = np.array(getattr(p, n), float)
        except NotImplementedError:
            pass
    return out

@sub("P02", "saved-state", save_case, quick=2500, thorough=60000, shards=3, tshards=8, floor=0.9,
     rule="state vectors restored on the same object after a visit elsewhere, and on another object of the same phase")
def saved(c, rec):
    A, B = load(c), load(c)
    put(A, c["a"])
    ref = allp(A)
    s = np.array(A.state)
    rec.check("size", len(s) == A.state_size, f"{len(s)} {A.state_size}")
    put(A, c["b"])
    put(B, c["b"])
    A.state = s
    B.state = s
    for o, w in ((A, "same"), (B, "other")):
        got = allp(o)
        rec.check("available", got.keys() == ref.keys())
        for n in ref:
            sc = {"h": R * A.T, "g": R * A.T, "s": R, "chemical_potentials": R * A.T, "partial_molar_enthalpies": R * A.T}.get(n, 0)
            rec.close(f"restore:{n}", got[n], ref[n], 1e-9, 1e-9 * sc + 1e-250, f"{w} {A.thermo_model}")
        rec.close("restore:X", o.X, A.X, 1e-12, 1e-300)
    # composition setters agree with each other and keep T (and, for X/Y, density of compressible phases)
    x = comp(A, c["xk"])
    put(A, c["b"]); put(B, c["b"])
    T0, D0, P0 = A.T, A.density, A.P
    A.X = x
    w = x * A.molecular_weights
    B.Y = w
    rec.close("X-vs-Y", B.X, A.X, 1e-10, 1e-15)
    rec.close("normalized", A.X.sum(), 1.0, 1e-12)
    rec.close("normalized", A.Y.sum(), 1.0, 1e-12)
    rec.close("X-value", A.X, x / x.sum(), 1e-11, 1e-20)
    rec.close("keeps-T", A.T, T0, 0, 0)
    if A.is_compressible:
        rec.close("keeps-density", A.density, D0, 1e-13)
    else:
        rec.close("keeps-P", A.P, P0, 1e-13)
    if A.thermo_model not in ("ideal-surface", "coverage-dependent-surface"):
        if A.thermo_model in ("Redlich-Kwong", "Peng-Robinson"):
            # the new composition at the old density can be unstable; start from a stable state
            A.TPX = c["b"][0], c["b"][1], comp(A, c["a"][2])
            P0 = A.P
        A.TP = c["a"][0], None
        if not A.is_compressible:
            rec.close("TP-None-P", A.P, P0, 1e-10)
        rec.close("TP-T", A.T, c["a"][0], 1e-14)
        X0 = A.X.copy()
        A.TP = None, c["a"][1]
        rec.close("TP-None-T", A.T, c["a"][0], 1e-14)
        rec.close("TP-P", A.P, c["a"][1], 1e-9)
        rec.close("TP-X", A.X, X0, 1e-14)
    rec.hit(A.thermo_model)

# ------------------------------------------------------------------ `state` entries
FORMS = {
    "TP": (("T", "P"), ("temperature", "pressure")), "TD": (("T", "D"), ("temperature", "density")),
    "TV": (("T", "V"), ("T", "specific-volume")), "HP": (("H", "P"), ("enthalpy", "pressure")),
    "UV": (("U", "V"), ("internal-energy", "specific-volume"), ("int-energy", "V")),
    "SP": (("S", "P"), ("entropy", "P")), "SV": (("S", "V"), ("entropy", "specific-volume")),
    "DP": (("D", "P"), ("density", "pressure")), "T": (("T",), ("temperature",)), "P": (("P",), ("pressure",)), "": ((),)}
UNIT = {"T": [("K", 1)], "P": [("Pa", 1), ("atm", 101325.0), ("bar", 1e5), ("kPa", 1e3)],
        "D": [("kg/m^3", 1), ("g/cm^3", 1e3), ("lb/ft^3", None)], "V": [("m^3/kg", 1), ("cm^3/g", 1e-3)],
        "H": [("J/kg", 1), ("kJ/kg", 1e3), ("cal/g", 4184.0)], "U": [("J/kg", 1), ("erg/g", 1e-4)],
        "S": [("J/kg/K", 1), ("kJ/kg/K", 1e3)]}

@st.composite
def yaml_case(draw):
    c = draw(phase_case(models=["ideal-gas", "ideal-gas", "ideal-condensed", "ideal-solution-VPSS", "Redlich-Kwong"], lib=False))
    c["form"] = draw(st.sampled_from(list(FORMS)))
    c["names"] = draw(st.integers(0, 5))
    c["comp"] = draw(st.sampled_from(["X", "Y", "mole-fractions", "mass-fractions"]))
    c["u"] = draw(st.integers(0, 20))
    return c

@sub("P02", "state-entry", yaml_case, quick=2000, thorough=40000, shards=2, tshards=8, floor=0.6,
     rule="`state` mappings in phase definitions: every property combination, synonym, unit and composition form")
def state_entry(c, rec):
    A = load(c)
    put(A, c["a"])
    form = c["form"]
    if not A.is_compressible and any(k in form for k in "DVU"):
        rec.skip("incompressible")
    if A.thermo_model == "Redlich-Kwong" and form in ("T", "P", ""):
        pass
    vals = read(A)
    fr = FORMS[form][c["names"] % len(FORMS[form])]
    state = {}
    for k, name in zip(form, fr):
        us = [u for u in UNIT[k] if u[1]]
        u, f = us[c["u"] % len(us)]
        state[name] = vals[k] / f if f == 1 and c["u"] % 2 else f"{vals[k] / f!r} {u}"
        if isinstance(state[name], str):
            state[name] = state[name].replace("np.float64(", "").replace(")", "")
    frac = A.X if c["comp"] in ("X", "mole-fractions") else A.Y
    state[c["comp"]] = {n: float(x) for n, x in zip(A.species_names, frac) if x}
    y = json.loads(json.dumps(c["yaml"]))
    y["phases"][0]["state"] = state
    try:
        B = ct.Solution(yaml=json.dumps(y))
    except NotImplementedError as e:
        if form in ("TV", "DP") and A.thermo_model != "ideal-gas" or form == "TV":
            rec.skip("not offered by this model: " + form)
        raise
    except ct.CanteraError as e:
        raise
    rec.hit(form)
    T = A.T if "T" in form or len(form) == 2 else 298.15
    P = A.P if "P" in form or len(form) == 2 else ct.one_atm
    tol = 1e-4 if A.thermo_model == "Redlich-Kwong" else 1e-6
    if len(form) == 2 and form not in ("TP", "TD", "DP"):
        vb, sc = read(B), scales(A)
        if B.T < 1 and A.thermo_model == "Redlich-Kwong":
            # (a phase under construction used to start at 1 mK, where the iteration stalls)
            rec.fail(f"cold-start:{form}", f"{state}: left at {B.T} K")
            return
        for k in form:
            rec.close(f"{form}:{k}", vb[k], vals[k], 1e-7, 1e-6 * sc[k], str(state))
        if B.T < 200:
            rec.skip("a second solution, below the range of the species data")
    rec.close(f"{form}:T", B.T, T, tol, 0, str(state))
    rec.close(f"{form}:P", B.P, P, tol, 0, str(state))
    rec.close(f"{form}:X", B.X, A.X, 1e-10, 1e-15)

# ------------------------------------------------------------------ pure fluids
PURE = {"water": 647.286, "nitrogen": 126.2, "methane": 190.555, "hydrogen": 32.938, "oxygen": 154.581,
        "carbon-dioxide": 304.21, "heptane": 537.68, "HFC-134a": 374.21}
LOW = {"hydrogen": 0.5, "carbon-dioxide": 0.73, "HFC-134a": 0.62, "heptane": 0.56}
PP = ["TP", "HP", "UV", "SP", "SV", "TD", "TQ", "PQ", "ST", "TV", "PV", "UP", "VH", "TH", "SH", "TPQ"]

@st.composite
def pure_case(draw):
    f = draw(st.sampled_from(sorted(PURE)))
    c = {"f": f, "pair": draw(st.sampled_from(PP)), "basis": draw(st.sampled_from(["mass", "molar"]))}
    for k in "ab":
        reg = draw(st.sampled_from(["liquid", "vapor", "two-phase", "super"]))
        tr = draw(uni(max(LOW.get(f, 0.5), 0.5), 0.95)) if reg != "super" else draw(uni(1.05, 1.4 if f != "HFC-134a" else 1.15))
        c[k] = {"reg": reg, "tr": tr, "r": draw(uni(0.02, 0.98))}
    return c

def putpure(p, s, Tc):
    T = s["tr"] * Tc
    if s["reg"] == "two-phase":
        p.TQ = T, s["r"]
    elif s["reg"] == "vapor":
        p.TQ = T, 1.0
        P = p.P
        p.TP = T, P * s["r"]**2 if s["r"] < 0.95 else P * 0.9
    elif s["reg"] == "liquid":
        p.TQ = T, 0.0
        P = p.P
        p.TP = T, P * 1.01 + s["r"] * (5e6)
    else:
        p.TP = T, p.critical_pressure * (0.05 + 2 * s["r"])

@sub("P02", "pure-fluid", pure_case, quick=4000, thorough=100000, shards=4, tshards=8, floor=0.6,
     rule="eight pure fluids; liquid, vapor, saturated and supercritical targets; sixteen property pairs plus T-P-Q")
def pure(c, rec):
    A, B = (ct.PureFluid("liquidvapor.yaml", c["f"]) for _ in "ab")
    A.basis = B.basis = c["basis"]
    Tc = A.critical_temperature
    try:
        putpure(A, c["a"], Tc)
        putpure(B, c["b"], Tc)
    except ct.CanteraError as e:
        rec.skip("target not reachable")
    pair = c["pair"]
    va = read(A)
    va["Q"] = A.Q
    two = c["a"]["reg"] == "two-phase"
    if ("Q" in pair) != two and "Q" in pair:
        rec.skip("no vapor fraction")
    if pair in ("TP",) and two:
        rec.skip("TP does not determine a saturated state")
    sc = scales(A)
    sc["Q"] = 1
    try:
        setattr(B, pair, tuple(va[k] for k in pair))
    except ct.CanteraError as e:
        if pair in ("VH", "TH", "SH", "ST", "UP", "PV", "TV"):
            rec.skip("no convergence: " + pair)      # solver for a secondary pair gave up, and said so
        if c["f"] == "heptane" and "No convergence" in str(e):
            rec.skip("no convergence: heptane")      # ill-conditioned low-density vapor branch
        if c["f"] == "HFC-134a" and ("Temperature out of range. T = 374.18" in str(e) or "Temperature out of range. T = 374.19" in str(e)
                                     or "Temperature out of range. T = 374.2" in str(e)):
            # the correlations end at 374.18 K, below the critical temperature of 374.21 K the solver relies on
            rec.fail("HFC-134a-critical:error", f"{c['a']} from {c['b']}: {str(e)[:300]}")
            return
        rec.fail(f"{pair}:error", f"{c['f']} {c['a']}: {str(e)[:300]}")
        return
    rec.hit(f"{pair} {c['a']['reg']}")
    vb = read(B)
    vb["Q"] = B.Q
    for k in pair:
        rec.close(f"{pair}:{k}", vb[k], va[k], 2e-6, 2e-6 * sc[k], f"{c['f']} {c['a']} from {c['b']}")
    # pairs that determine the state of a stable one-component fluid
    if pair not in ("TH", "VH", "SH", "DP", "PV"):
        liq = c["a"]["reg"] == "liquid"
        rec.close(f"{pair}:T", B.T, A.T, 2e-5, 0, f"{c['f']} {c['a']} from {c['b']}")
        rec.close(f"{pair}:D", B.density, A.density, 5e-4, 0, f"{c['f']} {c['a']} from {c['b']}")
        if two:
            rec.close(f"{pair}:Q", B.Q, A.Q, 1e-4, 1e-4)
    s = B.state
    B.TP = 1.2 * Tc if c["f"] != "HFC-134a" else 1.1 * Tc, B.critical_pressure
    B.state = s
    rec.close("state:D", B.density, vb["D"], 1e-10, 0)
    rec.close("state:T", B.T, vb["T"], 1e-12, 0)
