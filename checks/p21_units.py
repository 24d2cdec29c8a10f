"""P21: unit systems.
Oracle: a table of units written down from the documentation; metamorphic: the same mechanism
written in any unit system, by defaults at any level or by explicit units, is the same mechanism.
Non-trivial: at least one default unit or explicit unit differs from Cantera's own."""
import copy, json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen
from gen import uni, logu, fractions
NA, EC, R = 6.02214076e26, 1.602176634e-19, ct.gas_constant
DIM = ["mass", "length", "time", "temperature", "current", "quantity"]
#        factor, (M, L, T, K, A, Q), pressure, energy
U = {"kg": (1, (1, 0, 0, 0, 0, 0)), "g": (1e-3, (1, 0, 0, 0, 0, 0)), "m": (1, (0, 1, 0, 0, 0, 0)), "micron": (1e-6, (0, 1, 0, 0, 0, 0)),
     "angstrom": (1e-10, (0, 1, 0, 0, 0, 0)), "\u00c5": (1e-10, (0, 1, 0, 0, 0, 0)), "s": (1, (0, 0, 1, 0, 0, 0)), "min": (60, (0, 0, 1, 0, 0, 0)),
     "hr": (3600, (0, 0, 1, 0, 0, 0)), "K": (1, (0, 0, 0, 1, 0, 0)), "A": (1, (0, 0, 0, 0, 1, 0)), "mol": (1e-3, (0, 0, 0, 0, 0, 1)),
     "gmol": (1e-3, (0, 0, 0, 0, 0, 1)), "mole": (1e-3, (0, 0, 0, 0, 0, 1)), "kmol": (1, (0, 0, 0, 0, 0, 1)), "kgmol": (1, (0, 0, 0, 0, 0, 1)),
     "molec": (1 / NA, (0, 0, 0, 0, 0, 1)), "J": (1, (1, 2, -2, 0, 0, 0)), "cal": (4.184, (1, 2, -2, 0, 0, 0)), "erg": (1e-7, (1, 2, -2, 0, 0, 0)),
     "eV": (EC, (1, 2, -2, 0, 0, 0)), "N": (1, (1, 1, -2, 0, 0, 0)), "dyn": (1e-5, (1, 1, -2, 0, 0, 0)), "Pa": (1, (1, -1, -2, 0, 0, 0)),
     "atm": (101325, (1, -1, -2, 0, 0, 0)), "bar": (1e5, (1, -1, -2, 0, 0, 0)), "m^3": (1, (0, 3, 0, 0, 0, 0)), "liter": (1e-3, (0, 3, 0, 0, 0, 0)),
     "L": (1e-3, (0, 3, 0, 0, 0, 0)), "l": (1e-3, (0, 3, 0, 0, 0, 0)), "cc": (1e-6, (0, 3, 0, 0, 0, 0)), "ohm": (1, (1, 2, -3, 0, -2, 0)),
     "V": (1, (1, 2, -3, 0, -1, 0)), "coulomb": (1, (0, 0, 1, 0, 1, 0))}
PRE = {"Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6, "k": 1e3, "h": 1e2, "d": 1e-1, "c": 1e-2, "m": 1e-3,
       "u": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "z": 1e-21, "y": 1e-24}
PRESSURE = {"Pa", "atm", "bar"}; ENERGY = {"J", "cal", "erg", "eV"}

def single(u, pre=""):
    f, d = U[u]
    return f * (PRE[pre] if pre else 1), np.array(d, float), float(u in PRESSURE), float(u in ENERGY)

def lookup(name):
    """Factor of a plain or prefixed unit."""
    if name in U:
        return U[name]
    f, d = U[name[1:]]
    return f * PRE[name[0]], d

PLAIN = [u for u in U if u not in ("m^3", "\u00c5")]
@st.composite
def unit_expr(draw, maxn=4):
    """A compound unit with its factor and dimensions."""
    n = draw(st.integers(1, maxn))
    s, f, d, pd, ed = "", 1.0, np.zeros(6), 0.0, 0.0
    for i in range(n):
        u = draw(st.sampled_from(PLAIN)); pre = ""
        if len(u) <= 5 and draw(st.integers(0, 2)) == 0:
            pre = draw(st.sampled_from(["k", "c", "m", "M", "u", "n", "d", "G"]))
            if pre + u in U:
                pre = ""
        uf, ud, up, ue = single(u, pre)
        e = draw(st.sampled_from([1, 1, 1, 2, 3, -1, -2, 0.5, 1.5]))
        op = draw(st.sampled_from(["*", "/"])) if i else ""
        sp = draw(st.sampled_from(["", " "])) if i else ""
        s += sp + op + sp + pre + u + (f"^{e}" if e != 1 or draw(st.integers(0, 9)) == 0 else "")
        if op == "/":
            e = -e
        f *= uf**e; d += ud * e; pd += up * e; ed += ue * e
    return {"s": s, "f": f, "d": list(d), "pd": pd, "ed": ed}

DEF = {"mass": ["kg", "g", "mg"], "length": ["m", "cm", "mm", "micron", "angstrom", "km"], "time": ["s", "ms", "min", "hr"],
       "quantity": ["kmol", "mol", "gmol", "molec", "kgmol", "mmol"], "pressure": ["Pa", "atm", "bar", "kPa", "MPa", "dyn/cm^2"],
       "energy": ["J", "cal", "kJ", "kcal", "eV", "erg"], "temperature": ["K"], "current": ["A"],
       "activation-energy": ["J/kmol", "K", "cal/mol", "kcal/mol", "eV", "kJ/mol", "J / mol", "cal/kmol", "meV", "kK"]}
FACT = {"dyn/cm^2": 0.1, "J/kmol": 1, "K": R, "cal/mol": 4184.0, "kcal/mol": 4.184e6, "eV": EC * NA, "kJ/mol": 1e6, "J / mol": 1e3, "cal/kmol": 4.184,
        "meV": EC * NA * 1e-3, "kK": 1e3 * R}

@st.composite
def usys(draw, p=2):
    return {k: draw(st.sampled_from(v)) for k, v in DEF.items() if draw(st.integers(0, p)) == 0}

class System:
    def __init__(self, d, parent=None):
        self.d = {**(parent.d if parent else {}), **d}
        g = lambda k, dflt: (0.1 if self.d[k] == "dyn/cm^2" else lookup(self.d[k])[0]) if k in self.d else dflt
        self.m, self.l, self.t, self.q = g("mass", 1.0), g("length", 1.0), g("time", 1.0), g("quantity", 1.0)
        self.p, self.e = g("pressure", 1.0), g("energy", 1.0)
        self.act = FACT[self.d["activation-energy"]] if "activation-energy" in self.d else self.e / self.q
    def factor(self, d, pd=0.0, ed=0.0):
        """Size of the default unit for dimensions `d` of which pressure^pd and energy^ed were explicit."""
        return (self.m**(d[0] - pd - ed) * self.l**(d[1] + pd - 2 * ed) * self.t**(d[2] + 2 * pd + 2 * ed) * self.q**d[5]
                * self.p**pd * self.e**ed)

@st.composite
def conv_case(draw):
    a, b = draw(unit_expr()), draw(unit_expr())
    if draw(st.booleans()):
        # a compatible source: another spelling of every factor
        s, f = [], b["f"]
        for i, k in enumerate(("g", "cm", "hr", "K", "mA", "molec")):
            if b["d"][i]:
                s.append(f"{k}^{b['d'][i]}")
        f = math.prod(lookup(k)[0]**b["d"][i] for i, k in enumerate(("g", "cm", "hr", "K", "mA", "molec")))
        a = {"s": "*".join(s) or "1", "f": f, "d": b["d"], "pd": 0, "ed": 0}
    return {"u": draw(usys()), "a": a, "b": b, "x": draw(st.one_of(logu(1e-5, 1e5), st.sampled_from([0.0, -2.5, 1.0, 3e-12]))),
            "act": draw(st.tuples(st.sampled_from(DEF["activation-energy"]), st.sampled_from(DEF["activation-energy"])))}

@sub("P21", "conversions", conv_case, quick=3000, thorough=200000, shards=1, tshards=8, floor=0.8,
     rule="compound units with prefixes, roots and powers under generated default unit systems; incompatible units are refused")
def conv(c, rec):
    us = ct.UnitSystem(c["u"]); S = System(c["u"])
    x, a, b = c["x"], c["a"], c["b"]
    got = us.units
    for k, v in c["u"].items():
        if k not in ("temperature", "current"):
            rec.check("defaults reported", got[k] == v, f"{k}: {got[k]} for {v}")
    fac = S.factor(b["d"], b["pd"], b["ed"])
    if not all(1e-250 < abs(f) < 1e250 for f in (fac, a["f"], b["f"], fac / b["f"], a["f"] / b["f"])):
        rec.skip("outside the range of floating point numbers")
    rec.close("number in default units", us.convert_to(x, b["s"]), x * fac / b["f"], 1e-11, 0, f"{x} to {b['s']} in {c['u']}")
    rec.close("array", us.convert_to(np.array([x, 2 * x]), b["s"]), np.array([x, 2 * x]) * fac / b["f"], 1e-11)
    same = np.allclose(a["d"], b["d"], atol=1e-12)
    try:
        v = us.convert_to(f"{x!r} {a['s']}", b["s"])
        rec.check("incompatible units refused", same, f"{a['s']} converted to {b['s']}: {v}")
        rec.close("explicit units", v, x * a["f"] / b["f"], 1e-11, 0, f"{x} {a['s']} to {b['s']}")
    except ct.CanteraError as e:
        # (exponents are compared exactly: sums of halves are exact)
        rec.check("compatible units accepted", not same, f"{a['s']} to {b['s']}: {str(e)[:300]}")
    p, q = c["act"]
    fp, fq = FACT[p], FACT[q]
    rec.close("activation energy", us.convert_activation_energy_to(f"{x!r} {p}", q), x * fp / fq, 1e-11, 0, f"{x} {p} to {q}")
    rec.close("activation energy in default units", us.convert_activation_energy_to(x, q), x * S.act / fq, 1e-11, 0, f"{x} to {q} in {c['u']}")
    rec.hit("same" if same else "different")

# ------------------------------------------------------------------ mechanisms
@st.composite
def mech_case(draw):
    kind = draw(st.sampled_from(["gas", "gas", "gas", "surface", "echem"]))
    if kind == "gas":
        model = draw(st.sampled_from(["ideal-gas", "ideal-gas", "Redlich-Kwong", "Peng-Robinson"]))
        m = draw(mechgen.gas_mech(model=model, with_transport="mixture-averaged" if model == "ideal-gas" else None))
        n = [m["n"]]
    else:
        m = draw(mechgen.surf_mech(kinds=(kind,)))
        n = [m["ng"], m["ns"]]
    return {"y": m["yaml"], "kind": kind, "n": n, "T": draw(uni(400, 2500)), "P": draw(logu(1e3, 3e6)), "X": [draw(fractions(k)) for k in n],
            "root": draw(usys(1)), "lists": {k: draw(usys()) for k in ("species", "reactions", "phases") if draw(st.integers(0, 2)) == 0},
            "items": draw(usys(1)), "pick": draw(st.lists(st.integers(0, 1000), min_size=40, max_size=40))}

class Writer:
    def __init__(self, pick):
        self.pick, self.i, self.explicit = pick, 0, 0
    def next(self, n):
        self.i += 1
        return (self.pick[self.i % len(self.pick)] + 7 * (self.i // len(self.pick))) % n
    def dim(self, S, x, d, pd=0.0, ed=0.0, alts=()):
        """Number in default units, or with explicit units out of alts [(string, factor)]."""
        if alts and self.next(4) == 0:
            s, f = alts[self.next(len(alts))]
            self.explicit += 1
            return f"{float(x / f)!r} {s}"
        return float(x / S.factor(d, pd, ed))
    def act(self, S, x):
        if self.next(4) == 0:
            k = DEF["activation-energy"][self.next(len(DEF["activation-energy"]))]
            self.explicit += 1
            return f"{x / FACT[k]!r} {k}"
        return x / S.act
    def pressure(self, S, x):
        return self.dim(S, x, (1, -1, -2, 0, 0, 0), 1, 0, [("atm", 101325.0), ("kPa", 1e3), ("dyn/cm^2", 0.1), ("bar", 1e5), ("N/m^2", 1.0)])
    def temperature(self, S, x):
        return self.dim(S, x, (0, 0, 0, 1, 0, 0), 0, 0, [("K", 1.0)])

def sides(eq):
    import re
    left = re.split(r"<=>|=>", eq)[0]
    fall = "(+" in left
    left = re.sub(r"\(\+\s*\S+?\)\s*$", "", left.strip()) if fall else left
    out = {}
    for t in left.split(" + "):
        t = t.split()
        out[t[-1]] = out.get(t[-1], 0) + (float(t[0]) if len(t) == 2 else 1)
    return out

def rate(W, S, k, d):
    """Arrhenius-like entry with a coefficient of dimensions d."""
    out = dict(k)
    tq, tl = d[5], d[1]
    alts = []
    if tl == -3 * tq:
        f = lambda v, q, t: (v / q)**tq / t
        def name(vol, q, t):
            e = -tq
            return (f"({vol})" if False else "*".join([f"{vol}^{3 * e:g}"] if e else []) + (f"/{q}^{e:g}" if e else "")).replace("^1/", "/") or "1"
        for l, lf in (("cm", 1e-2), ("m", 1.0)):
            for q, qf in (("mol", 1e-3), ("molec", 1 / NA), ("kmol", 1.0)):
                for t, tf in (("s", 1.0), ("min", 60.0)):
                    alts.append((f"{l}^{tl:g}*{q}^{tq:g}/{t}" if tq else f"1/{t}", lf**tl * qf**tq / tf))
    else:
        alts = [(f"cm^{tl:g} * mol^{tq:g} / s", 1e-2**tl * 1e-3**tq), (f"mol^{tq:g}/m^{-tl:g}/hr", 1e-3**tq / 3600)]
    if "A" in out:
        out["A"] = W.dim(S, k["A"], d, 0, 0, alts)
    for e in ("Ea", "Ea0", "w"):
        if e in out:
            out[e] = W.act(S, k[e])
    return out

def convert(c, rec):
    y = copy.deepcopy(c["y"]); W = Writer(c["pick"])
    root = System(c["root"])
    rk = next((k for k in ("reactions", "surf-reactions") if k in y))
    level = {"phases": root, "species": root, rk: root}
    for k, u in c["lists"].items():
        kk = rk if k == "reactions" else k
        level[kk] = System(u, root)
    sites = {}
    def item(entry, S):
        if c["items"] and W.next(5) == 0:
            entry["units"] = c["items"]
            return System(c["items"], S)
        return S
    phases_of = {}
    for p in y["phases"]:
        S = item(p, level["phases"])
        for s in p["species"]:
            phases_of[s] = p["thermo"]
        if "state" in p:
            p["state"] = {"T": W.temperature(S, p["state"]["T"]), "P": W.pressure(S, p["state"]["P"])}
        if "site-density" in p:
            p["site-density"] = W.dim(S, p["site-density"], (0, -2, 0, 0, 0, 1), 0, 0, [("mol/cm^2", 10.0), ("molec/angstrom^2", 1e20 / NA), ("kmol/m^2", 1.0)])
    for s in y["species"]:
        S = item(s, level["species"]); th = s["thermo"]
        e1 = (1, 2, -2, 0, 0, -1); e2 = (1, 2, -2, -1, 0, -1)
        if th["model"] == "constant-cp":
            th["h0"] = W.dim(S, th["h0"], e1, 0, 1, [("kcal/mol", 4.184e6), ("J/mol", 1e3), ("eV/molec", EC * NA)])
            for k in ("s0", "cp0"):
                th[k] = W.dim(S, th[k], e2, 0, 1, [("cal/mol/K", 4.184e3), ("J/kmol/K", 1.0)])
            th["T0"] = W.temperature(S, th["T0"])
        if "reference-pressure" in th:
            th["reference-pressure"] = W.pressure(S, th["reference-pressure"])
        if "critical-parameters" in s:
            q = s["critical-parameters"]
            q["critical-pressure"] = W.pressure(S, q["critical-pressure"])
            q["critical-temperature"] = W.temperature(S, q["critical-temperature"])
        if "equation-of-state" in s:
            q = s["equation-of-state"]
            q["molar-volume"] = W.dim(S, q["molar-volume"], (0, 3, 0, 0, 0, -1), 0, 0, [("cm^3/mol", 1e-3), ("L/mol", 1.0), ("cc/gmol", 1e-3)])
    conc = {"ideal-gas": (-3, 1), "Redlich-Kwong": (-3, 1), "Peng-Robinson": (-3, 1), "ideal-surface": (-2, 1), "ideal-condensed": (0, 0), "electron-cloud": (0, 0)}
    for r in y[rk]:
        S = item(r, level[rk])
        orders = sides(r["equation"])
        tb = orders.pop("M", 0)
        if r.get("type") == "three-body" and not tb:
            tb = 0       # a specific collider is among the reactants
        orders.update(r.get("orders", {}))
        l = sum(v * conc[phases_of[s]][0] for s, v in orders.items()) - 3 * tb
        q = sum(v * conc[phases_of[s]][1] for s, v in orders.items()) + tb
        r0 = (-3, 1) if c["kind"] == "gas" else (-2, 1)
        def d(extra=0):
            return (0, r0[0] - l + 3 * extra, -1, 0, 0, r0[1] - q - extra)
        t = r.get("type", "")
        def sub_rate(x, t, d):
            if "rate-constants" in x:
                x["rate-constants"] = [{"P": W.pressure(S, k["P"]), **rate(W, S, {a: b for a, b in k.items() if a != "P"}, d(0))} for k in x["rate-constants"]]
            if "rate-constant" in x:
                x["rate-constant"] = rate(W, S, x["rate-constant"], d(0))
            for e, k in (("low-P-rate-constant", 1), ("high-P-rate-constant", 0)):
                if e in x:
                    x[e] = rate(W, S, x[e], d(k - (1 if t == "chemically-activated" else 0)))
            if "data" in x:
                x["temperature-range"] = [W.temperature(S, v) for v in x["temperature-range"]]
                x["pressure-range"] = [W.pressure(S, v) for v in x["pressure-range"]]
                x["data"][0][0] -= math.log10(S.factor(d(0)))
        if "sticking-coefficient" in r:
            k = r["sticking-coefficient"]
            for e in ("Ea", "Ea0", "w"):
                if e in k:
                    k[e] = W.act(S, k[e])
        elif t == "linear-Burke":
            for col in r["colliders"]:
                if "type" in col:
                    sub_rate(col, col["type"], d)
                if "efficiency" in col:
                    col["efficiency"]["Ea"] = W.act(S, col["efficiency"]["Ea"])
        else:
            sub_rate(r, t, d)
        for s, cd in r.get("coverage-dependencies", {}).items():
            def ee(v):
                return [W.act(S, a) for a in v] if isinstance(v, list) else W.act(S, v)
            if isinstance(cd, list):
                cd[2] = ee(cd[2])
            else:
                cd["E"] = ee(cd["E"])
    for k, u in c["lists"].items():
        kk = rk if k == "reactions" else k
        if u:
            y[kk].insert(0, {"units": u})
    if c["root"]:
        y = {"units": c["root"], **y}
    used = {**c["root"], **{k: v for u in c["lists"].values() for k, v in u.items()}}
    return y, W.explicit, used

def make(y, kind):
    s = json.dumps(y)
    if kind == "gas":
        g = ct.Solution(yaml=s)
        return [g], g
    if kind == "surface":
        g = ct.Interface(yaml=s, name="surf")
        return [g.adjacent["gas"], g], g
    g = ct.Interface(yaml=s, name="surf")
    return [g.adjacent["elyte"], g.adjacent["metal"], g], g

@sub("P21", "mechanisms", mech_case, quick=900, thorough=40000, shards=2, tshards=8, floor=0.6,
     rule="gas, surface and electrochemical mechanisms rewritten in generated default units (file, list and entry level) and explicit units")
def mech(c, rec):
    base = copy.deepcopy(c["y"])
    for r in base.get("surf-reactions", []):
        r.pop("exchange-current-density-formulation", None)
    c = {**c, "y": base}
    y, explicit, used = convert(c, rec)
    try:
        A, ka = make(base, c["kind"])
    except ct.CanteraError as e:
        rec.skip("not accepted")
    try:
        B, kb = make(y, c["kind"])
    except ct.CanteraError as e:
        rec.fail("accepted in other units", str(e)[:500]); return
    ctx = f"{used} {c['items']}"
    for a, b in zip(A, B):
        rec.close("initial state", [b.T, b.P], [a.T, a.P], 1e-10, 0, ctx)
    for ph in (A, B):
        k = 0
        for x in ph:
            if x.n_species == 1:
                x.TP = c["T"], c["P"]; continue
            X = c["X"][k]; k += 1
            x.TPX = c["T"], c["P"], X
            if c["kind"] == "echem" and x.name == "elyte":
                x.electric_potential = 0.3
    for a, b in zip(A, B):
        n = a.name + ":"
        rec.close("density", b.density, a.density, 1e-9, 0, n + ctx)
        rec.close("standard enthalpies", b.standard_enthalpies_RT, a.standard_enthalpies_RT, 1e-9, 1e-8, n + ctx)
        rec.close("standard entropies", b.standard_entropies_R, a.standard_entropies_R, 1e-9, 1e-8, n + ctx)
        rec.close("heat capacity", b.cp_mole, a.cp_mole, 1e-9, 0, n + ctx)
        rec.close("concentrations", b.concentrations, a.concentrations, 1e-9, 0, n + ctx)
    if c["kind"] == "gas" and base["phases"][0].get("transport"):
        rec.close("viscosity", kb.viscosity, ka.viscosity, 1e-9)
    for i in range(ka.n_reactions):
        t = base.get("reactions", base.get("surf-reactions"))[i].get("type", "")
        f0, f1 = ka.forward_rate_constants[i], kb.forward_rate_constants[i]
        tol = 1e-8 + 1e-9 * abs(math.log(abs(f0) + 1e-290))
        rec.close("forward rate constants", f1, f0, tol, 1e-290, f"{ka.reaction(i).equation} [{ka.reaction(i).reaction_type}] {ctx}")
    rec.close("net rates of progress", kb.net_rates_of_progress, ka.net_rates_of_progress, 1e-7, 1e-8 * np.abs(ka.forward_rates_of_progress + ka.reverse_rates_of_progress) + 1e-290, ctx)
    if explicit or any(v not in ("kg", "m", "s", "kmol", "Pa", "J", "K", "A", "J/kmol", "kgmol") for v in used.values()):
        rec.hit(c["kind"] + (" explicit" if explicit else ""))

# ------------------------------------------------------------------ quantities with units
PROPS = {"mass": {"J": ["enthalpy", "int_energy", "gibbs"], "J/K": ["entropy", "cp", "cv"], "m^3": ["volume"]}}
WU = {"T": [("K", 1, 0), ("degC", 1, 273.15), ("degF", 5 / 9, 459.67 * 5 / 9), ("degR", 5 / 9, 0), ("mK", 1e-3, 0)],
      "P": [("Pa", 1, 0), ("atm", 101325, 0), ("bar", 1e5, 0), ("psi", 6894.757293168361, 0), ("kPa", 1e3, 0), ("torr", 101325 / 760, 0)],
      "E": [("J", 1, 0), ("cal", 4.184, 0), ("kJ", 1e3, 0), ("erg", 1e-7, 0)],
      "V": [("m**3", 1, 0), ("cm**3", 1e-6, 0), ("liter", 1e-3, 0), ("foot**3", 0.3048**3, 0)],
      "mass": [("kg", 1, 0), ("g", 1e-3, 0), ("lb", 0.45359237, 0)], "molar": [("kmol", 1, 0), ("mol", 1e-3, 0), ("mmol", 1e-6, 0)]}
SETS = ["TP", "DP", "HP", "SP", "SV", "TD", "UV"]
PF = ["PQ", "TQ", "PV", "TV", "UP", "ST", "TH", "SH", "VH"]

@st.composite
def wu_case(draw):
    pure = draw(st.integers(0, 3)) == 0
    names = draw(st.sampled_from(SETS)) if not pure or draw(st.booleans()) else draw(st.sampled_from(PF[:3]))
    return {"pure": pure, "set": names, "comp": draw(st.sampled_from(["", "X", "Y"])) if not pure else "", "form": draw(st.sampled_from(["array", "quantity", "percent", "dict"])),
            "basis": draw(st.sampled_from(["mass", "molar"])), "T": draw(uni(400, 2000)), "P": draw(logu(1e3, 2e6)), "Q": draw(uni(0.05, 0.95)),
            "X": draw(fractions(10)), "pick": draw(st.lists(st.integers(0, 11), min_size=6, max_size=6)), "none": draw(st.sampled_from([-1, -1, -1, 0, 1])), "wrong": draw(st.integers(0, 4)) == 0}

@sub("P21", "quantities with units", wu_case, quick=400, thorough=10000, shards=1, tshards=8, floor=0.7,
     rule="cantera.with_units: every state setter with generated units, bases and omitted values, every property compared with the plain phase")
def wu(c, rec):
    import cantera.with_units as cu
    if c["pure"]:
        q = cu.PureFluid("liquidvapor.yaml", "water"); p = ct.PureFluid("liquidvapor.yaml", "water")
        T0 = min(c["T"], 640.0)
        start = (T0, c["Q"])
    else:
        q = cu.Solution("h2o2.yaml", "ohmech"); p = ct.Solution("h2o2.yaml", "ohmech")
    q.basis = c["basis"]; p.basis = c["basis"]
    Q_ = cu.Q_
    if c["pure"]:
        p.TQ = start
        q.TQ = Q_(300.0, "K"), Q_(0.3, "dimensionless")
    else:
        p.TPX = c["T"], c["P"], c["X"]
        q.TPX = Q_(500.0, "K"), Q_(2e5, "Pa"), np.ones(10) / 10
    i = [0]
    def pick(l):
        i[0] += 1
        return l[c["pick"][i[0] % 6] % len(l)]
    def quantity(kind, value, other=False):
        per = pick(WU[c["basis"]])
        if kind in "TP":
            u, f, o = pick(WU[kind]); return Q_((value - o) / f, u)
        if kind == "D":
            v = pick(WU["V"]); return Q_(value / per[1] * v[1], f"{per[0]}/{v[0]}")
        if kind == "V":
            v = pick(WU["V"]); return Q_(value * per[1] / v[1], f"{v[0]}/{per[0]}")
        if kind in "HU":
            e = pick(WU["E"]); return Q_(value * per[1] / e[1], f"{e[0]}/{per[0]}")
        if kind == "S":
            e = pick(WU["E"]); return Q_(value * per[1] / e[1], f"{e[0]}/{per[0]}/K")
        return Q_(value, "dimensionless") if pick([0, 1]) else Q_(100 * value, "percent")
    get = lambda o, k: {"T": lambda: o.T, "P": lambda: o.P, "D": lambda: o.density, "V": lambda: o.v, "H": lambda: o.h, "U": lambda: o.u, "S": lambda: o.s, "Q": lambda: o.Q}[k]()
    vals = [get(p, k) for k in c["set"]]
    args = [quantity(k, v) for k, v in zip(c["set"], vals)]
    if c["none"] >= 0:
        # (a value left out keeps that of the current state)
        vals[c["none"]] = get(q, c["set"][c["none"]]).magnitude
        args[c["none"]] = None
    name = c["set"] + c["comp"]
    if c["wrong"]:
        k = [a for a in range(2) if args[a] is not None][0]
        bad = list(args); bad[k] = Q_(1.0, "meter")
        before = (q.T.magnitude, q.P.magnitude)
        try:
            setattr(q, name, tuple(bad) + ((c["X"],) if c["comp"] else ()))
            rec.fail("wrong dimensions refused", f"{name} {bad}")
        except Exception as e:
            rec.check("kind of error", type(e).__name__ == "DimensionalityError", repr(e)[:200])
        rec.close("state after a refused set", [q.T.magnitude, q.P.magnitude], before, 1e-9)
        try:
            setattr(q, name, (300.0,) * 2 + ((c["X"],) if c["comp"] else ()))
            rec.fail("plain numbers refused", name)
        except (ct.CanteraError, AttributeError):
            pass
    Z = np.array(c["X"])
    if c["comp"]:
        if c["form"] == "array": comp = Z
        elif c["form"] == "quantity": comp = Q_(Z, "dimensionless")
        elif c["form"] == "percent": comp = Q_(100 * Z / Z.sum(), "percent")
        else: comp = dict(zip(p.species_names, Z))
        args.append(comp); pv = tuple(vals) + (Z,)
    else:
        # same composition
        if not c["pure"]:
            p.X = q.X.magnitude
            vals = [get(p, k) if args[j] is not None else v for j, (k, v) in enumerate(zip(c["set"], vals))]
            args = [quantity(k, v) if args[j] is not None else None for j, (k, v) in enumerate(zip(c["set"], vals))]
        pv = tuple(vals)
    try:
        setattr(p, name, pv)
        a = None
    except (ct.CanteraError, NotImplementedError) as e:
        a = e
    try:
        setattr(q, name, tuple(args))
        b = None
    except (ct.CanteraError, NotImplementedError) as e:
        b = e
    if a or b:
        if bool(a) != bool(b):
            rec.skip("at the edge of the range")
        rec.skip("no such state")
    ctx = f"{name} {c['basis']} {args[:2]}"
    # (stored to the tolerance with which the state is found)
    for n in ("T", "P", "density_mass", "enthalpy_mass", "X", "Y"):
        v = getattr(q, n).magnitude
        r = getattr(p, n)
        rec.close(f"{n} after setting", v, r, 1e-6, 1e-6 * np.max(np.abs(r)) + (abs(p.cp_mass * p.T) * 1e-6 if n == "enthalpy_mass" and p.cp_mass < 1e9 else 0), ctx)
    # every property, at one and the same state
    if c["pure"]:
        q._phase.TD = p.TD
    else:
        q._phase.TDX = p.TDX
    KG = {"mass": "kilogram", "molar": "kilomole"}[c["basis"]]
    B = "kilogram" if c["basis"] == "mass" else "kilomole"
    J = cu.units.Unit
    exp = {"T": "K", "P": "Pa", "density": f"{B}/m**3", "density_mass": "kg/m**3", "density_mole": "kmol/m**3", "v": f"m**3/{B}", "volume_mass": "m**3/kg", "volume_mole": "m**3/kmol",
           "mean_molecular_weight": "kg/kmol", "molecular_weights": "kg/kmol", "atomic_weight": "kg/kmol", "concentrations": "kmol/m**3", "chemical_potentials": "J/kmol",
           "electrochemical_potentials": "J/kmol", "partial_molar_enthalpies": "J/kmol", "partial_molar_int_energies": "J/kmol", "partial_molar_entropies": "J/kmol/K",
           "partial_molar_cp": "J/kmol/K", "partial_molar_volumes": "m**3/kmol", "isothermal_compressibility": "1/Pa", "thermal_expansion_coeff": "1/K",
           "electric_potential": "V", "max_temp": "K", "min_temp": "K", "reference_pressure": "Pa", "sound_speed": "m/s", "X": "dimensionless", "Y": "dimensionless",
           "critical_temperature": "K", "critical_pressure": "Pa", "critical_density": f"{B}/m**3", "P_sat": "Pa", "T_sat": "K", "Q": "dimensionless"}
    for s, l in (("h", "enthalpy"), ("u", "int_energy"), ("g", "gibbs")):
        exp.update({s: f"J/{B}", l + "_mass": "J/kg", l + "_mole": "J/kmol"})
    for s, l in (("s", "entropy"), ("cp", "cp"), ("cv", "cv")):
        exp.update({s: f"J/{B}/K", l + "_mass": "J/kg/K", l + "_mole": "J/kmol/K"})
    for n, u in exp.items():
        try:
            r = getattr(p, n)
        except (ct.CanteraError, NotImplementedError, AttributeError):
            continue
        if n == "atomic_weight":
            continue
        v = getattr(q, n)
        rec.check(f"units of {n}", v.units == J(u), f"{v.units} for {u}")
        rec.close(f"value of {n}", v.magnitude, r, 1e-9, 1e-300, ctx)
    for n in SETS + (PF if c["pure"] else []):
        try:
            r = getattr(p, n)
        except (ct.CanteraError, NotImplementedError):
            continue
        v = getattr(q, n)
        for k, a, b in zip(n, v, r):
            u = {"T": "K", "P": "Pa", "D": f"{B}/m**3", "H": f"J/{B}", "U": f"J/{B}", "S": f"J/{B}/K", "V": f"m**3/{B}", "Q": "dimensionless"}[k]
            rec.check(f"units of {n}", a.units == J(u), f"{a.units} for {u}")
            rec.close(f"value of {n}", a.magnitude, b, 1e-9)
    rec.hit(("pure " if c["pure"] else "") + c["set"])
