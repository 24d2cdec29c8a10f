"""P04: compositions, fuel/oxidizer mixtures and quantities are what was asked for.
Oracle: element balances and fractions worked out with numpy from the atoms of the species,
independently of the library.  Non-trivial: stated per sub-check."""
import json
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions

POOL = {"H2": {"H": 2}, "O2": {"O": 2}, "N2": {"N": 2}, "AR": {"Ar": 1}, "CO": {"C": 1, "O": 1}, "CO2": {"C": 1, "O": 2},
        "H2O": {"H": 2, "O": 1}, "CH4": {"C": 1, "H": 4}, "C2H5OH": {"C": 2, "H": 6, "O": 1}, "CH3OH": {"C": 1, "H": 4, "O": 1},
        "SO2": {"S": 1, "O": 2}, "H2S": {"H": 2, "S": 1}, "NH3": {"N": 1, "H": 3}, "NO": {"N": 1, "O": 1}, "CS2": {"C": 1, "S": 2},
        "C3H8": {"C": 3, "H": 8}, "O": {"O": 1}, "H": {"H": 1}, "O3": {"O": 3}, "SO3": {"S": 1, "O": 3}, "HCN": {"H": 1, "C": 1, "N": 1}}
FUEL = ["H2", "CO", "CH4", "C2H5OH", "CH3OH", "H2S", "NH3", "CS2", "C3H8", "HCN"]
OX = ["O2", "NO", "O3", "O"]
INERT = ["N2", "AR", "CO2", "H2O", "SO2"]

@st.composite
def system(draw, need=()):
    sp = list(need)
    for n in draw(st.lists(st.sampled_from(sorted(POOL)), min_size=2, max_size=12, unique=True)):
        if n not in sp:
            sp.append(n)
    sp = draw(st.permutations(sp))
    els = sorted({e for s in sp for e in POOL[s]})
    els = draw(st.permutations(els))
    th = []
    for s in sp:
        if draw(st.integers(0, 3)) == 0:
            d = draw(gen.nasa7(zones=2))
        else:
            d = {"model": "constant-cp", "T0": 298.15, "h0": draw(uni(-3e8, 3e8)), "s0": draw(uni(1e5, 4e5)), "cp0": draw(uni(2.5e4, 2e5))}
        th.append(d)
    return {"sp": list(sp), "els": list(els), "th": th, "model": draw(st.sampled_from(["ideal-gas"] * 4 + ["ideal-condensed"])), "iso": draw(st.integers(0, 5)) == 0}

def doc(s):
    d = {"phases": [{"name": "p", "thermo": s["model"], "elements": s["els"], "species": s["sp"]}], "species": []}
    for n, th in zip(s["sp"], s["th"]):
        th = dict(th, **{"reference-pressure": 1e5})
        e = {"name": n, "composition": POOL[n], "thermo": th}
        if s["model"] == "ideal-condensed":
            e["equation-of-state"] = {"model": "constant-volume", "molar-volume": 0.01 + 0.003 * len(n)}
        d["species"].append(e)
    if s["iso"]:
        # an element redefined with another weight
        d["elements"] = [{"symbol": "H", "atomic-weight": 2.014}]
        d["phases"][0]["elements"] = [{"elements": ["H"]}, {"default": [e for e in s["els"] if e != "H"]}] if len(s["els"]) > 1 and "H" in s["els"] else s["els"]
    return d

class Ref:
    def __init__(self, s):
        d = doc(s)
        self.names = s["sp"]
        W = {"H": 1.008, "O": 15.999, "N": 14.007, "C": 12.011, "S": 32.06, "Ar": 39.95}
        if s["iso"]:
            W["H"] = 2.014
        self.W = W
        self.atoms = {e: np.array([POOL[n].get(e, 0) for n in s["sp"]], float) for e in W}
        self.mw = sum(W[e] * self.atoms[e] for e in W)
    def x2y(self, x):
        y = np.asarray(x) * self.mw
        return y / y.sum()
    def y2x(self, y):
        x = np.asarray(y) / self.mw
        return x / x.sum()
    def need(self, y):
        """kmol of O2 needed per kg, with the oxygen present and without"""
        n = np.asarray(y) / self.mw / np.sum(y)
        a = self.atoms
        req = (n * (a["C"] + a["S"] + a["H"] / 4)).sum()
        return req, (n * a["O"]).sum() / 2

def give(names, v, form):
    """The amounts v in one of the accepted forms."""
    if form == "array":
        return np.array(v)
    if form == "list":
        return list(v)
    d = {n: float(x) for n, x in zip(names, v) if x != 0.0}
    if form == "dict":
        return d
    if form == "dict0":
        return {n: float(x) for n, x in zip(names, v)}
    sep = {"string": ", ", "string ": " , ", "spaces": " "}[form]
    return sep.join(f"{n}:{x!r}" for n, x in d.items())

FORMS = ["array", "list", "dict", "dict0", "string", "string ", "spaces"]

@st.composite
def comp_case(draw):
    s = draw(system())
    n = len(s["sp"])
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append({"how": draw(st.sampled_from(["X", "Y", "TPX", "TPY", "TDX", "TDY", "concentrations", "unnormalized-Y", "unnormalized-X", "elements"])),
                    "v": draw(fractions(n)), "f": draw(st.sampled_from(FORMS)), "k": draw(logu(1e-3, 1e3)), "T": draw(uni(300, 2000)), "P": draw(logu(1e3, 1e7)), "D": draw(logu(1e-2, 10)),
                    "basis": draw(st.sampled_from(["mass", "molar"])), "thr": draw(st.sampled_from([0.0, 1e-13, 1e-6, 0.1, 0.3]))})
    return {"s": s, "ops": ops}

@sub("P04", "compositions", comp_case, quick=1100, thorough=60000, shards=2, tshards=8, floor=0.6,
     rule="compositions set in every form, unnormalized, in sequence; fractions, concentrations, weights, elements and dictionaries compared to the reference; at least two species present and two steps")
def compositions(c, rec):
    s = c["s"]; r = Ref(s)
    p = ct.Solution(yaml=json.dumps(doc(s)))
    rec.close("molecular weights", p.molecular_weights, r.mw, 1e-12)
    inc = s["model"] == "ideal-condensed"
    for e in p.element_names:
        rec.close("atomic weight", p.atomic_weight(e), r.W[e], 1e-12)
        for i, n in enumerate(s["sp"]):
            rec.check("n_atoms", p.n_atoms(n, e) == r.atoms[e][i] == p.n_atoms(i, p.element_index(e)), f"{n} {e}")
    p.TP = 300, 1e5
    for o in c["ops"]:
        v = np.array(o["v"]) / sum(o["v"]); how = o["how"]
        if inc and how in ("TDX", "TDY", "concentrations"):
            how = "TPX"
        amount = give(s["sp"], v * o["k"], o["f"])
        p.basis = o["basis"]
        T0, P0, D0 = p.T, p.P, p.density
        D = o["D"] * 1.0
        norm = 1.0
        if how in ("X", "Y"):
            setattr(p, how, amount)
            rec.close("T kept", p.T, T0, 1e-14)
        elif how in ("TPX", "TPY"):
            setattr(p, how, (o["T"], o["P"], amount))
            rec.close(how, [p.T, p.P], [o["T"], o["P"]], 1e-12)
        elif how in ("TDX", "TDY"):
            q = D if o["basis"] == "mass" else D / ((r.mw * v).sum() if how == "TDX" else 1 / (v / r.mw).sum())
            setattr(p, how, (o["T"], q, amount))
            rec.close(how, [p.T, p.density_mass], [o["T"], D], 1e-12)
        elif how == "concentrations":
            p.concentrations = v * o["k"]
            rec.close("concentrations set", p.concentrations, v * o["k"], 1e-12, 1e-15)
            rec.close("density of concentrations", p.density_mass, (v * o["k"] * r.mw).sum(), 1e-12)
        elif how == "unnormalized-Y":
            if o["f"] not in ("array", "list"): amount = v * o["k"]
            k = 1 + 1e-3 * (o["k"] % 1)
            p.set_unnormalized_mass_fractions(v * k)
            norm = k
            rec.close("unnormalized Y", p.Y, v * k, 1e-13, 1e-300)
        elif how == "unnormalized-X":
            k = 1 + 1e-3 * (o["k"] % 1)
            p.set_unnormalized_mole_fractions(v * k)
            norm = k
            rec.close("unnormalized X", p.X, v * k, 1e-13, 1e-300)
        elif how == "elements":
            p.X = amount
        if "Y" in how:
            y = v; x = r.y2x(v)
        else:
            x = v; y = r.x2y(v)
        if norm != 1.0:
            continue
        rec.close(f"{how}:X", p.X, x, 1e-12, 1e-18)
        rec.close(f"{how}:Y", p.Y, y, 1e-12, 1e-18)
        M = (x * r.mw).sum()
        rec.close("mean molecular weight", p.mean_molecular_weight, M, 1e-12)
        rec.close("density_mole", p.density_mole * M, p.density_mass, 1e-12)
        rec.close("volume_mole", p.volume_mole * p.density_mole, 1.0, 1e-12)
        rec.close("density in the basis", p.density, p.density_mass if o["basis"] == "mass" else p.density_mole, 1e-14)
        rec.close("volume in the basis", p.v, 1 / p.density, 1e-12)
        if not inc:
            rec.close("concentrations", p.concentrations, x * p.density_mole, 1e-12, 1e-18)
        tot = sum((x * r.atoms[e]).sum() for e in r.atoms)
        for e in p.element_names:
            rec.close("elemental_mole_fraction", p.elemental_mole_fraction(e), (x * r.atoms[e]).sum() / tot, 1e-11, 1e-16)
            rec.close("elemental_mass_fraction", p.elemental_mass_fraction(p.element_index(e)), (x * r.atoms[e]).sum() * r.W[e] / M, 1e-11, 1e-16)
        t = o["thr"]
        for a, d in ((p.X, p.mole_fraction_dict(t)), (p.Y, p.mass_fraction_dict(t))):
            want = {n: z for n, z in zip(s["sp"], a) if z > t}
            rec.check("dictionary", d == want, f"threshold {t}: {d} {want}")
        # subset and scaled
        idx = [i for i in range(len(v)) if i % 2 == 0]
        sl = p[[s["sp"][i] for i in idx]]
        rec.close("selected species", sl.X, x[idx], 1e-12, 1e-18)
        rec.close("selected species Y", sl.Y, y[idx], 1e-12, 1e-18)
    if len(c["ops"]) > 1 and (v > 0).sum() > 1:
        rec.hit()

# ------------------------------------------------------------------ fuel and oxidizer
@st.composite
def fuel_case(draw):
    f = draw(st.lists(st.sampled_from(FUEL), min_size=1, max_size=3, unique=True))
    o = draw(st.lists(st.sampled_from(OX), min_size=1, max_size=2, unique=True))
    i = draw(st.lists(st.sampled_from(INERT), min_size=1, max_size=3, unique=True))
    s = draw(system(need=f + o + i))
    def mix(main, other):
        d = {n: draw(uni(0.05, 1, 100)) for n in main}
        for n in other:
            if draw(st.booleans()):
                d[n] = draw(uni(0.01, 2, 100))
        return d
    return {"s": s, "fuel": mix(f, draw(st.sampled_from([i, i, o, f]))), "ox": mix(o, draw(st.sampled_from([i, i, i, f]))), "dil": mix(i[:2], draw(st.sampled_from([[], [], i, f]))),
            "bare": draw(st.integers(0, 5)) == 0,
            "phi": draw(st.one_of(uni(0.05, 5), logu(1e-3, 1e3), st.sampled_from([0.0, 1.0]))), "Z": draw(st.one_of(uni(0, 1), st.sampled_from([0.0, 1.0]))),
            "basis": draw(st.sampled_from(["mole", "mass"])), "frac": draw(st.one_of(st.none(), st.tuples(st.sampled_from(["fuel", "oxidizer", "diluent"]), uni(0, 1)))), "ff": draw(st.sampled_from(["str", "dict"])),
            "f": draw(st.lists(st.sampled_from(FORMS), min_size=3, max_size=3)), "T": draw(uni(300, 2000)), "P": draw(logu(1e3, 1e7)), "X0": draw(fractions(len(s["sp"]))), "q": draw(st.booleans()),
            "react": draw(st.booleans()), "el": draw(st.sampled_from(["C", "H", "O", "N", "S", "Ar"])), "k": draw(st.sampled_from([1.0, 0.1, 7.0])), "solbasis": draw(st.sampled_from(["mass", "molar"]))}

@sub("P04", "fuel and oxidizer", fuel_case, quick=1100, thorough=60000, shards=2, tshards=8, floor=0.5,
     rule="fuel, oxidizer and diluent of C, H, O, N, S species set by equivalence ratio or mixture fraction and read back; oracle: oxygen balances; the mixture contains fuel and oxidizer")
def fuel_ox(c, rec):
    s = c["s"]; r = Ref(s); sp = s["sp"]; n = len(sp)
    p = ct.Solution(yaml=json.dumps(doc(s)))
    if s["model"] == "ideal-condensed":
        p.TPX = c["T"], c["P"], c["X0"]
    else:
        p.TPX = c["T"], c["P"], c["X0"]
    p.basis = c["solbasis"]
    tgt = ct.Quantity(p, mass=2.0) if c["q"] else p
    fuel, ox, dil = dict(c["fuel"]), dict(c["ox"]), c["dil"]
    if c["bare"]:
        fuel = {min(x for x in fuel if x in FUEL): 1.0}; ox = {min(x for x in ox if x in OX): 1.0}
    vec = lambda d: np.array([d.get(x, 0.0) for x in sp])
    def arg(d, f):
        if c["bare"] and len(d) == 1 and f == "string":
            return list(d)[0]           # the name alone
        return give(sp, vec(d) * c["k"], f)
    F, O, Dl = arg(fuel, c["f"][0]), arg(ox, c["f"][1]), arg(dil, c["f"][2])
    toy = (lambda d: r.x2y(vec(d))) if c["basis"] == "mole" else (lambda d: vec(d) / vec(d).sum())
    yf, yo, yd = toy(fuel), toy(ox), toy(dil)
    b = c["basis"]
    of = r.need(yf); oo = r.need(yo)
    bf, bo = of[0] - of[1], oo[0] - oo[1]
    scale = max(of[0] + of[1], oo[0] + oo[1])
    if abs(bf) < 1e-9 * scale or abs(bo) < 1e-9 * scale:
        rec.skip("balanced")
    X0 = p.X.copy()
    if bf < 0 or bo > 0:
        for f in (lambda: p.set_equivalence_ratio(1.0, F, O, b), lambda: p.stoich_air_fuel_ratio(F, O, b), lambda: p.mixture_fraction(F, O, b), lambda: p.equivalence_ratio(F, O, b)):
            try:
                f()
            except ct.CanteraError:
                continue
            rec.fail("refused", f"fuel {fuel} with oxidizer {ox} was accepted")
        rec.close("state after refusal", p.X, X0, 1e-12, 1e-16)
        rec.hit("refused")
        return
    afr = bf / -bo
    rec.close("stoich_air_fuel_ratio", p.stoich_air_fuel_ratio(F, O, b), afr, 1e-10)
    rec.close("query leaves the state", p.X, X0, 1e-12, 1e-16)
    T0, P0 = p.T, p.P
    phi = c["phi"]
    y = phi * yf + afr * yo
    y = y / y.sum()
    Z = phi / (phi + afr)
    kw = {}
    fr = c["frac"]
    ok = True
    if fr:
        kind, v = fr
        kw = {"diluent": Dl, "fraction": f"{kind}:{v!r}" if c["ff"] == "str" else {kind: v}}
        x = r.y2x(y)
        # amounts of fuel and oxidizer in the mixture
        if b == "mass":
            zf, mix, d = Z, y, yd
        else:
            nf, no = Z / (1 / (yf / r.mw).sum()), (1 - Z) / (1 / (yo / r.mw).sum())
            zf, mix, d = nf / (nf + no), x, r.y2x(yd)
        if kind == "diluent":
            out = (1 - v) * mix + v * d
        else:
            z = zf if kind == "fuel" else 1 - zf
            if abs(v - z) < 1e-9 or z < 1e-9:
                rec.skip("at the limit of dilution")
            ok = v <= z
            out = v / z * mix + (1 - v / z) * d if ok else None
        if ok:
            y = out / out.sum() if b == "mass" else r.x2y(out)
    try:
        tgt.set_equivalence_ratio(phi, F, O, b, **kw)
    except ValueError as e:
        rec.check("dilution accepted", not ok, str(e))
        rec.hit("dilution refused")
        return
    rec.check("dilution refused", ok, f"{fr}, mixture {y}")
    rec.close("set_equivalence_ratio:Y", tgt.Y, y, 1e-9, 1e-15)
    rec.close("set_equivalence_ratio:TP", [tgt.T, tgt.P], [T0, P0], 1e-10)
    if c["q"]:
        rec.close("quantity mass", tgt.mass, 2.0, 1e-14)
        p.state = tgt.state
    if c["react"] and s["model"] == "ideal-gas":
        # a different composition with the same elements
        try:
            p.equilibrate("TP")
        except ct.CanteraError:
            rec.skip("no equilibrium")
        # within the accuracy of the equilibrium
        rt = 1e-6
    else:
        rt = 1e-9
    yy = p.Y
    q = r.need(yy)
    tol = rt * scale
    if not fr:
        got = p.equivalence_ratio(F, O, b)
        zt = rt * scale / (bf - bo)
        if zt < Z < 1 - zt:
            rec.close("equivalence_ratio(fuel, oxidizer)", got, phi, 10 * (rt + zt / min(Z, 1 - Z)))
        rec.close("mixture_fraction", p.mixture_fraction(F, O, b), Z, 10 * rt, 10 * zt)
    rec.close("local equivalence ratio", p.equivalence_ratio(), q[0] / q[1] if q[1] > 0 else np.inf, 1e-10 if q[1] > 0 else 0)
    # without some of the species
    keep = [x for i, x in enumerate(sp) if x not in dil or i % 2]
    m = np.array([x in keep for x in sp])
    if (yy * m).sum() > 1e-12:
        q = r.need(np.where(m, yy, 0.0))
        st0 = p.state.copy()
        got = p.equivalence_ratio(include_species=keep)
        if q[1] > 1e-200:
            rec.close("equivalence ratio of some species", got, q[0] / q[1], 1e-10)
        rec.close("state after include_species", p.state[2:], st0[2:], 1e-9, 1e-15)
        rec.close("T, P after include_species", [p.T, p.P], [T0, P0], 1e-9)
    # elements
    e = c["el"]
    if e in p.element_names:
        w = lambda y: (y / r.mw * r.atoms[e]).sum() * r.W[e]
        a, bb = w(yf), w(yo)
        if abs(a - bb) > 1e-6 and not fr:
            rec.close("mixture_fraction of an element", p.mixture_fraction(F, O, b, element=e), Z, 1e-8, 100 * rt / abs(a - bb))
    # by mixture fraction
    tgt.set_mixture_fraction(c["Z"], F, O, b)
    rec.close("set_mixture_fraction:Y", tgt.Y, c["Z"] * yf + (1 - c["Z"]) * yo, 1e-10, 1e-15)
    rec.close("set_mixture_fraction:TP", [tgt.T, tgt.P], [p.T, p.P], 1e-10)
    rec.close("set_mixture_fraction:P", tgt.P, P0, 1e-8)
    rec.hit(b)

# ------------------------------------------------------------------ quantities
@st.composite
def q_case(draw):
    s = draw(system())
    s["model"] = "ideal-gas"
    s["th"] = [draw(st.one_of(gen.nasa7(zones=2), gen.constcp(hr=3e7))) for _ in s["sp"]]
    n = len(s["sp"])
    mk = lambda: {"T": draw(uni(400, 1500)), "P": draw(logu(1e4, 1e6)), "X": draw(fractions(n)), "by": draw(st.sampled_from(["mass", "moles"])), "v": draw(logu(1e-3, 1e3))}
    ops = draw(st.lists(st.tuples(st.sampled_from(["add", "iadd", "mul", "rmul", "imul", "TP", "X", "mass", "moles", "read", "HP", "sum", "equilibrate", "own phase"]), st.integers(0, 2), st.integers(0, 2), uni(0.1, 5)), min_size=2, max_size=9))
    return {"s": s, "q": [mk() for _ in range(3)], "ops": ops, "const": draw(st.sampled_from(["UV", "HP"])), "basis": draw(st.sampled_from(["mass", "molar"])), "P": draw(logu(1e4, 1e6))}

def ext(q):
    return np.array([q.mass, q.moles, q.volume, q.int_energy, q.enthalpy, q.T, q.P])

@sub("P04", "quantities", q_case, quick=550, thorough=20000, shards=2, tshards=8, floor=0.6,
     rule="sequences of mixing, scaling and changing three quantities that share phases, against the extensive balances and a phase for each; at least one mixture")
def quantities(c, rec):
    s = c["s"]; r = Ref(s)
    p = ct.Solution(yaml=json.dumps(doc(s))); p2 = ct.Solution(yaml=json.dumps(doc(s)))
    p.basis = p2.basis = c["basis"]
    Q, model = [], []
    for i, q in enumerate(c["q"]):
        ph = p2 if i == 2 else p
        ph.TPX = q["T"], c["P"] if c["const"] == "HP" else q["P"], q["X"]
        Q.append(ct.Quantity(ph, constant=c["const"], **{q["by"]: q["v"]}))
        X = np.array(q["X"]) / sum(q["X"])
        m = q["v"] if q["by"] == "mass" else q["v"] * (X * r.mw).sum()
        model.append({"m": m, "Y": r.x2y(X), "T": q["T"], "P": c["P"] if c["const"] == "HP" else q["P"]})
    t = ct.Solution(yaml=json.dumps(doc(s)))
    def props(M):
        t.TPY = M["T"], M["P"], M["Y"]
        return np.array([M["m"], M["m"] / t.mean_molecular_weight, M["m"] * t.volume_mass, M["m"] * t.int_energy_mass, M["m"] * t.enthalpy_mass, M["m"] * t.entropy_mass, M["m"] * t.gibbs_mass])
    def same(k, sig):
        q, M = Q[k], model[k]
        a = props(M)
        b = [q.mass, q.moles, q.volume, q.int_energy, q.enthalpy, q.entropy, q.gibbs]
        t.TPY = M["T"], M["P"], M["Y"]
        rt = M["m"] * ct.gas_constant / t.mean_molecular_weight
        at = 1e-7 * np.array([0, 0, 0, rt * M["T"], rt * M["T"], rt, rt * M["T"]])
        rec.close(sig, b, a, 2e-7, at, "mass, moles, V, U, H, S, G")
        rec.close(sig + ":Y", q.Y, M["Y"], 1e-9, 1e-15)
        rec.close(sig + ":TP", [q.T, q.P], [M["T"], M["P"]], 2e-7)
        rec.close(sig + ":short names", [q.V, q.U, q.H, q.S, q.G], b[2:], 1e-14)
        # the density in the basis of the phase
        rec.close(sig + ":basis", q.h, (q.enthalpy / q.mass if c["basis"] == "mass" else q.enthalpy / q.moles), 1e-11, 1e-6)
    def mix(A, B):
        a, b = props(A), props(B)
        M = {"m": A["m"] + B["m"], "Y": (A["m"] * A["Y"] + B["m"] * B["Y"]) / (A["m"] + B["m"])}
        t.TPY = 500, 1e5, M["Y"]
        bs = t.basis
        if c["const"] == "UV":
            t.UV = (a[3] + b[3]) / M["m"], (a[2] + b[2]) / M["m"]
        else:
            if abs(A["P"] - B["P"]) > 1e-8 * A["P"]:
                return None
            t.HP = (a[4] + b[4]) / M["m"], A["P"]
        M["T"], M["P"] = t.T, t.P
        return M
    mixed = False
    for op, i, j, v in c["ops"]:
        if op in ("add", "iadd", "sum"):
            try:
                M = mix(model[i], model[j])
            except ct.CanteraError:
                rec.skip("no such state")
            before = model[j]
            if M is None:
                try:
                    Q[i] + Q[j]
                except ValueError:
                    continue
                rec.fail("unequal pressures", f"{Q[i].P} {Q[j].P} mixed at constant pressure")
                continue
            if op == "add":
                old = Q[i]
                Q[i] = Q[i] + Q[j]
                q0 = Q[i]; Q[i] = old; same(i, "operand of +"); Q[i] = q0
            elif op == "iadd":
                if i == j: continue
                q = Q[i]; q += Q[j]
                rec.check("+= in place", q is Q[i])
            else:
                Q[i] = Q[i] + Q[j] if v < 2 else Q[j] + Q[i]
            model[i] = M
            mixed = True
            same(i, op)
            if i != j:
                same(j, "other operand of " + op)
        elif op == "mul":
            Q[i] = Q[i] * v; model[i] = dict(model[i], m=model[i]["m"] * v)
        elif op == "rmul":
            Q[i] = v * Q[i]; model[i] = dict(model[i], m=model[i]["m"] * v)
        elif op == "imul":
            q = Q[i]; q *= v; Q[i] = q; model[i] = dict(model[i], m=model[i]["m"] * v)
        elif op == "TP":
            Pn = None if c["const"] == "HP" else 2e5 * v
            Q[i].TP = 300 * (1 + v / 5), Pn
            model[i] = dict(model[i], T=300 * (1 + v / 5), P=model[i]["P"] if Pn is None else Pn)
        elif op == "X":
            x = np.array(c["q"][j]["X"])
            Q[i].TPX = None, None, x
            model[i] = dict(model[i], Y=r.x2y(x))
        elif op == "mass":
            Q[i].mass = v; model[i] = dict(model[i], m=v)
        elif op == "moles":
            Q[i].moles = v
            model[i] = dict(model[i], m=v * r.y2x(model[i]["Y"]) @ r.mw)
        elif op == "HP":
            M = model[i]
            Q[i].HP = Q[i].h, M["P"] * 2 if c["const"] == "UV" else None
            if c["const"] == "UV": model[i] = dict(M, P=M["P"] * 2)
        elif op == "own phase":
            # a change of the shared phase does not reach the quantities
            (p2 if i == 2 else p).TPX = 350 + 10 * v, 1e5, c["q"][j]["X"]
        elif op == "equilibrate":
            q = Q[i]; M = model[i]
            el0 = [q.elemental_mass_fraction(e) for e in p.element_names]
            e0 = ext(q)
            try:
                q.equilibrate()
            except ct.CanteraError:
                rec.skip("no equilibrium")
            e1 = ext(q)
            rec.close("equilibrate: elements", [q.elemental_mass_fraction(e) for e in p.element_names], el0, 1e-3, 1e-5)   # (the solvers belong to P13)
            k = [2, 3] if c["const"] == "UV" else [4]
            for kk in k:
                rec.close("equilibrate: held " + c["const"], e1[kk], e0[kk], 1e-5, 1e-4 * q.moles * ct.gas_constant * q.T if kk > 2 else 0)
            if c["const"] == "HP":
                rec.close("equilibrate: P", e1[6], e0[6], 1e-6)
            rec.close("equilibrate: mass", e1[0], e0[0], 1e-14)
            model[i] = dict(M, T=q.T, P=q.P, Y=q.Y.copy())
        if op != "read":
            same(i, op)
        else:
            for k in range(3):
                same(k, "read")
    for k in range(3):
        same(k, "end")
    if mixed:
        rec.hit(c["const"])
