"""P28: nothing depends on the order or the names of species, elements and reactions.
Two copies of a generated definition are loaded, the second with species, elements and
reactions permuted, species renamed and reactions optionally split, or with an absent inert
species added; every property must be the permuted property of the first."""
import copy, json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen
from gen import uni, logu, fractions

SCALARS = ["density", "enthalpy_mass", "int_energy_mass", "entropy_mass", "gibbs_mass", "cp_mass", "cv_mass", "mean_molecular_weight",
           "thermal_expansion_coeff", "isothermal_compressibility", "sound_speed", "critical_temperature", "critical_pressure"]
SPECIES = ["X", "Y", "concentrations", "partial_molar_enthalpies", "partial_molar_entropies", "partial_molar_int_energies", "partial_molar_cp",
           "partial_molar_volumes", "chemical_potentials", "activities", "activity_coefficients", "standard_enthalpies_RT", "standard_entropies_R",
           "standard_gibbs_RT", "standard_cp_R", "molecular_weights", "charges"]
TS = ["viscosity", "thermal_conductivity"]
TV = ["mix_diff_coeffs", "mix_diff_coeffs_mass", "mix_diff_coeffs_mole", "thermal_diff_coeffs", "species_viscosities"]
TM = ["binary_diff_coeffs", "multi_diff_coeffs"]
KV = ["forward_rate_constants", "reverse_rate_constants", "forward_rates_of_progress", "reverse_rates_of_progress", "net_rates_of_progress",
      "equilibrium_constants", "delta_enthalpy", "delta_gibbs", "delta_entropy", "delta_standard_gibbs", "delta_standard_enthalpy",
      "forward_rates_of_progress_ddT", "net_rates_of_progress_ddP", "net_rates_of_progress_ddC", "third_body_concentrations", "heat_production_rates"]
KS = ["net_production_rates", "creation_rates", "destruction_rates", "net_production_rates_ddT", "net_production_rates_ddP",
      "net_production_rates_ddC", "creation_rates_ddT"]
KM = ["net_production_rates_ddX", "net_production_rates_ddCi"]

def get(o, n):
    try:
        return np.array(getattr(o, n), float)
    except (ct.CanteraError, NotImplementedError):
        return None

def rename(o, m):
    """Rename species everywhere in a definition: keys, values and tokens of equations"""
    if isinstance(o, dict):
        return {m.get(k, k): (o[k] if k in ("composition", "elements") else
                              " ".join("(+" + m.get(t[2:-1], t[2:-1]) + ")" if t.startswith("(+") else m.get(t, t) for t in o[k].split(" ")) if k == "equation" else rename(o[k], m)) for k in o}
    if isinstance(o, list):
        return [rename(v, m) for v in o]
    return m.get(o, o) if isinstance(o, str) else o

def perm(draw, n):
    return draw(st.permutations(range(n)))

def same(rec, tag, a, b, rtol, atol=0.0, msg=""):
    if a is None or b is None:
        rec.check(tag + " available", (a is None) == (b is None), f"{msg}: raises in only one of the two")
        return
    ok = np.isfinite(a) & (abs(a) < 1e290)
    if a.shape != b.shape:
        rec.fail(tag + " shape", f"{a.shape} {b.shape}"); return
    rec.check(tag + " finite", np.array_equal(np.isfinite(a), np.isfinite(b)) or not np.isfinite(a[~ok]).all(), f"{msg}: {a} {b}")
    ok &= np.isfinite(b)
    if ok.any():
        rec.close(tag, b[ok], a[ok], rtol, atol, msg)

MODELS = [m for m in gen.MODELS if m not in ("plasma",)]

@st.composite
def phase_case(draw):
    model = draw(st.sampled_from(MODELS))
    d = draw(gen.MODELS[model]())
    n = d["n"]
    c = {"model": model, "d": d, "T": draw(uni(*d["T"])), "P": draw(logu(*d["P"]))}
    c["X"] = None if "molal" in d else draw(fractions(n))
    if d.get("knots"):
        k = d["knots"]; q = k[0] + (k[-1] - k[0]) * c["X"][0]
        c["X"] = [q, 1 - q]
    c["perm"] = list(perm(draw, n))
    c["els"] = draw(st.booleans())
    c["rename"] = draw(st.booleans())
    c["phi"] = draw(st.sampled_from([0.0, 0.5]))
    return c

@sub("P28", "phases", phase_case, quick=2200, thorough=60000, shards=2, tshards=6, floor=0.8,
     rule="phases of every generated model loaded twice with species permuted and renamed")
def phases(c, rec):
    d = c["d"]["yaml"]
    try:
        a = ct.Solution(yaml=json.dumps(d))
    except ct.CanteraError as e:
        rec.skip("not loadable")
    names = a.species_names
    p = list(c["perm"])
    if c["d"].get("molal") or c["model"] in ("binary-solution-tabulated",):
        p = [0] + [i for i in p if i != 0]          # the first species is the solvent / the tabulated species
    if c["model"] == "coverage-dependent-surface":
        p = [0] + [i for i in p if i != 0]          # first species: vacant sites by convention
    m = {s: ("N" + s[::-1].replace("+", "p").replace("-", "m") + "_x") for s in names} if c["rename"] else {s: s for s in names}
    if c["model"] in ("Margules", "Redlich-Kister") :
        pass
    d2 = rename(copy.deepcopy(d), m)
    ph = d2["phases"][0]
    ph["species"] = [ph["species"][i] for i in p] if all(isinstance(s, str) for s in ph["species"]) else ph["species"]
    d2["species"] = d2["species"][::-1]
    if c["els"]:
        ph["elements"] = a.element_names[::-1]
    b = ct.Solution(yaml=json.dumps(d2))
    rec.check("names", b.species_names == [m[names[i]] for i in p], f"{b.species_names}")
    X = np.array(gen.molal_X(c["d"], a.molecular_weights)) if c["X"] is None else np.array(c["X"])
    for g, x in ((a, X), (b, X[p])):
        if c["model"] in ("ideal-surface", "coverage-dependent-surface"):
            g.TPX = c["T"], c["P"], x
        else:
            g.TPX = c["T"], c["P"], x
        g.electric_potential = c["phi"]
    if c["model"] in ("Redlich-Kwong", "Peng-Robinson") and abs(a.density / b.density - 1) > 1e-4:
        # gas and liquid roots at the same pressure: which one is found depends on the states before
        b.TDX = a.T, a.density, X[p]
        rec.label("several roots")
        rec.close("pressure of the same density", b.P, c["P"], 1e-6, 1e-6 * ct.gas_constant * a.T * a.density_mole, c["model"])
    rt = 1e-6 if c["d"].get("iapws") or c["model"] in ("Redlich-Kwong", "Peng-Robinson") else 1e-9
    sc = ct.gas_constant * c["T"]
    hs = max(1e-300, float(np.max(np.abs(a.standard_enthalpies_RT)))) if get(a, "standard_enthalpies_RT") is not None else 1.0
    W = a.mean_molecular_weight
    sz = {"partial_molar_enthalpies": sc * (1 + hs), "partial_molar_int_energies": sc * (1 + hs), "chemical_potentials": sc * (1 + hs), "standard_enthalpies_RT": 1 + hs, "standard_gibbs_RT": 1 + hs,
          "enthalpy_mass": sc / W * (1 + hs), "int_energy_mass": sc / W * (1 + hs), "gibbs_mass": sc / W * (1 + hs)}
    for n in SCALARS:
        same(rec, n, get(a, n), get(b, n), rt * (100 if n in ("sound_speed", "cv_mass", "isothermal_compressibility", "thermal_expansion_coeff") and rt > 1e-8 else 1),
             1e-12 * sz.get(n, 0) + 1e-13 * (n == "thermal_expansion_coeff"), f"{c['model']} {n}")
    for n in SPECIES:
        va, vb = get(a, n), get(b, n)
        v = None if va is None else va[p]
        same(rec, n, v, vb, rt, 1e-11 * sz.get(n, 0) + 1e-11 * (0 if va is None or not np.isfinite(va).any() else np.max(np.abs(va[np.isfinite(va)]))), f"{c['model']} {n}")
    for e in a.element_names:
        rec.close("elements", b.elemental_mass_fraction(e), a.elemental_mass_fraction(e), 1e-10, 1e-13, e)
        for i, s in enumerate(names):
            rec.check("atoms", a.n_atoms(s, e) == b.n_atoms(m[s], e), f"{s} {e}")
    rec.hit(c["model"])

@st.composite
def mech_case(draw):
    kind = draw(st.sampled_from(["gas", "gas", "surf"]))
    c = {"kind": kind}
    if kind == "gas":
        m = draw(mechgen.gas_mech(nmin=2, nmax=9, with_transport=draw(st.sampled_from(["mixture-averaged", "multicomponent", "unity-Lewis-number"]))))
        y = m["yaml"]
        c["n"] = [m["n"]]
    else:
        m = draw(mechgen.surf_mech(("surface", "surface")))
        y = m["yaml"]
        c["n"] = [m["ng"], m["ns"]]
    c["y"] = y
    nr = len(y["reactions"] if kind == "gas" else y["surf-reactions"])
    c["nr"] = nr
    c["perm"] = [list(perm(draw, n)) for n in c["n"]]
    c["rperm"] = list(perm(draw, nr))
    c["els"] = draw(st.booleans()); c["rename"] = draw(st.booleans())
    c["T"] = draw(uni(400, 2500)); c["P"] = draw(logu(1e3, 5e6))
    c["X"] = [draw(fractions(n)) for n in c["n"]]
    c["split"] = draw(st.booleans())
    c["extra"] = draw(st.booleans())
    c["swap"] = draw(st.booleans())
    return c

def load(rec, y, kind):
    try:
        if kind == "gas":
            return ct.Solution(yaml=json.dumps(y))
        return ct.Interface(yaml=json.dumps(y), name="surf")
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise

SCALE = {"forward_rates_of_progress_ddT": ["forward_rates_of_progress"], "net_rates_of_progress_ddP": ["forward_rates_of_progress", "reverse_rates_of_progress"]}

@sub("P28", "mechanisms", mech_case, quick=1600, thorough=60000, shards=4, tshards=8, floor=0.7,
     rule="gas and surface mechanisms loaded twice with species, elements and reactions permuted, renamed, sides of equations reordered")
def mechanisms(c, rec):
    kind, y = c["kind"], c["y"]
    a = load(rec, y, kind)
    key = "reactions" if kind == "gas" else "surf-reactions"
    phs = y["phases"]
    allnames = [s for p in phs for s in p["species"]]
    m = {s: "Z" + s.replace("(", "_").replace(")", "_") + "q" for s in allnames} if c["rename"] else {s: s for s in allnames}
    d = rename(copy.deepcopy(y), m)
    if c["swap"]:
        # names of species as explicit third bodies stay where they are
        for r in d[key]:
            r["equation"] = swap(r["equation"])
    d[key] = [d[key][i] for i in c["rperm"]]
    for p, q in zip(d["phases"], c["perm"]):
        p["species"] = [p["species"][i] for i in q]
        if c["els"] and "elements" in p:
            p["elements"] = p["elements"][::-1]
    d["species"] = d["species"][::-1]
    if c["extra"] and kind == "gas":
        # a species that is absent and does not react
        d["species"].append({"name": "inert", "composition": {"Xe": 1}, "thermo": {"model": "constant-cp", "h0": 0.0, "s0": 1e5, "cp0": 2.5 * ct.gas_constant, "T-min": 200.0, "T-max": 6000.0},
                             "transport": {"model": "gas", "geometry": "atom", "diameter": 4.0, "well-depth": 230.0}})
        d["phases"][0]["species"].insert(1, "inert")
        d["phases"][0]["elements"] = list(d["phases"][0]["elements"]) + ["Xe"]
        rec.hit("inert added")
    b = load(rec, d, kind)
    q = c["perm"]
    if kind == "gas":
        X = np.array(c["X"][0])
        def put(g, x): g.TPX = c["T"], c["P"], x
        idx = list(q[0])
        if c["extra"]: idx.insert(1, -1)
        keep = [i for i, k in enumerate(idx) if k >= 0]
        xb = np.array([X[k] if k >= 0 else 0.0 for k in idx])
        put(a, X); put(b, xb)
        pa = [k for k in idx if k >= 0]; pb = keep
    else:
        ga, gb = a.adjacent["gas"], b.adjacent["gas"]
        ga.TPX = c["T"], c["P"], c["X"][0]; gb.TPX = c["T"], c["P"], np.array(c["X"][0])[q[0]]
        a.TP = c["T"], c["P"]; b.TP = c["T"], c["P"]
        th = np.array(c["X"][1])
        a.coverages = th; b.coverages = th[q[1]]
        # kinetics species: surface first, then gas
        na, nb = a.kinetics_species_names, b.kinetics_species_names
        pa = [na.index(next(o for o in m if m[o] == s)) for s in nb]; pb = list(range(len(nb)))
    rp = c["rperm"]
    rx = [y[key][i] for i in rp]
    if not rx:
        rec.skip("no reactions")
    mag = None
    fa, ra = a.forward_rates_of_progress, a.reverse_rates_of_progress
    tot = (abs(fa) + abs(ra))[rp]
    thirds = np.array([x is not None for x in [r.third_body for r in a.reactions()]])[rp]
    conc = c["P"] / ct.gas_constant / c["T"]
    # nearly vanishing third bodies cancel
    tb = np.array(a.third_body_concentrations)[rp] if kind == "gas" else None
    bad = np.zeros(len(rx), bool)
    if kind == "gas":
        bad = np.isfinite(tb) & (abs(tb) < 1e-7 * conc) & (tb != 0)
    for n in KV:
        va, vb = get(a, n), get(b, n)
        if va is None or vb is None:
            same(rec, n, va, vb, 1e-8, 0, n); continue
        va = va[rp]
        s = 0.0
        if "net" in n or "heat" in n or "dd" in n:
            f = tot
            if n.endswith("ddT"): f = tot / c["T"] * 100
            if n.endswith("ddP"): f = tot / c["P"] * 3
            if n.endswith("ddC"): f = tot / conc * 3
            if n.startswith("heat"): f = tot * (abs(a.delta_enthalpy[rp]) + 1e6)
            s = (1e-6 if "_dd" in n else 1e-10) * f
        elif n.startswith("delta"):
            s = 1e-11 * np.max(np.abs(a.partial_molar_enthalpies)) if kind == "gas" else 1e-11 * 1e9
        for i in range(len(rx)):
            if bad[i] or not (np.isfinite(va[i]) and abs(va[i]) < 1e280): continue
            if va[i] != 0 and abs(va[i]) < 1e-250: continue
            rec.close(n, vb[i], va[i], 1e-7 if n in ("equilibrium_constants", "reverse_rate_constants", "reverse_rates_of_progress") else 1e-5 if "_dd" in n else 1e-8,
                      s if np.ndim(s) == 0 else s[i] + 1e-250, json.dumps(rx[i])[:300])
    if bad.any() or not np.all(tot < 1e280):
        rec.label("cancelling third body"); 
    else:
        ks = np.abs(a.reactant_stoich_coeffs) @ (abs(fa) + abs(ra)) + np.abs(a.product_stoich_coeffs) @ (abs(fa) + abs(ra))
        for n in KS:
            va, vb = get(a, n), get(b, n)
            if va is None or vb is None:
                same(rec, n, va, vb, 1e-8, 0, n); continue
            f = 1.0
            if n.endswith("ddT"): f = 100 / c["T"]
            if n.endswith("ddP"): f = 3 / c["P"]
            if n.endswith("ddC"): f = 3 / conc
            same(rec, n, va[pa], vb[pb], 1e-5 if "_dd" in n else 1e-8, (1e-6 if "_dd" in n else 1e-9) * f * ks[pa] + 1e-250, n)
        if kind == "gas":
            for n in KM:
                va, vb = get(a, n), get(b, n)
                if va is None or vb is None:
                    same(rec, n, va, vb, 1e-8, 0, n); continue
                va = va[np.ix_(pa, pa)]; vb = vb[np.ix_(pb, pb)]
                same(rec, n, va, vb, 1e-5, 1e-6 * np.max(np.abs(va[np.isfinite(va)]), initial=0) + 1e-250, n)
    if kind == "gas":
        present = X[pa] > 1e-8
        bd = get(a, "binary_diff_coeffs")
        if bd is None or not np.all(bd > 0) or not math.isfinite(a.viscosity):
            rec.label("transport fit out of bounds"); rec.hit(kind); return
        for n in TS:
            same(rec, n, get(a, n), get(b, n), 1e-3 if c["extra"] and a.transport_model == "multicomponent" else 1e-6, 0, f"{a.transport_model} {n} extra={c['extra']}")
        for n in TV:
            va, vb = get(a, n), get(b, n)
            if va is None or vb is None:
                same(rec, n, va, vb, 1e-8, 0, n); continue
            if n != "species_viscosities":
                va = va[pa][present]; vb = vb[pb][present]
            else:
                va, vb = va[pa], vb[pb]
            if X.max() > 1 - 1e-6 and n != "species_viscosities":
                rec.label("pure"); continue
            same(rec, n, va, vb, 5e-3 if c["extra"] and n == "thermal_diff_coeffs" else 1e-5, (1e-3 if c["extra"] else 1e-6) * np.max(np.abs(va), initial=0) if n == "thermal_diff_coeffs" else 0, f"{a.transport_model} {n} extra={c['extra']}")
        for n in TM:
            va, vb = get(a, n), get(b, n)
            if va is None or vb is None:
                same(rec, n, va, vb, 1e-8, 0, n); continue
            if n == "multi_diff_coeffs" and (not present.all() or c["extra"] or X.max() > 1 - 1e-6): continue
            same(rec, n, va[np.ix_(pa, pa)], vb[np.ix_(pb, pb)], 1e-5, 1e-6 * np.max(np.abs(va)) if n == "multi_diff_coeffs" else 0, f"{n}")
    rec.hit(kind); rec.hit("renamed" if c["rename"] else "same names")

def swap(eq):
    """Reverse the order of the terms on each side (the third body stays last)"""
    for ar in (" <=> ", " => ", " = "):
        if ar in eq:
            l, r = eq.split(ar)
            def side(s):
                t = s.split(" + ")
                if any("(+" in x or x == "M" for x in t): return s
                return " + ".join(t[::-1])
            return side(l) + ar + side(r)
    return eq

@st.composite
def solve_case(draw):
    f = draw(st.sampled_from(["h2o2.yaml", "gri30.yaml"]))
    return {"f": f, "seed": draw(st.integers(0, 10**6)), "T": draw(uni(900, 2200)), "P": draw(logu(1e4, 1e7)), "phi": draw(uni(0.3, 3)),
            "how": draw(st.sampled_from(["TP", "HP", "UV", "SP", "SV", "reactor", "reactor", "reactor"])),
            "solver": draw(st.sampled_from(["element_potential", "gibbs", "vcs"])), "t": draw(logu(1e-6, 1e-2)), "R": draw(st.sampled_from(["r", "p", "m"])),
            "pert": draw(uni(-50, 50)), "surf": draw(st.integers(0, 3)) == 0}

_files = {}
@sub("P28", "solutions", solve_case, quick=400, thorough=20000, shards=1, tshards=8, floor=0.6,
     rule="equilibrium and reactor integrations with permuted copies of shipped mechanisms")
def solutions(c, rec):
    path = "/repo/data/" + c["f"]
    rng = np.random.default_rng(c["seed"])
    key = ("g", c["f"])
    if key not in _files:
        g = ct.Solution(path); _files[key] = (g, g.species(), g.reactions())
    a, sp, rx = _files[key]
    ps = rng.permutation(len(sp)); pr = rng.permutation(len(rx))
    b = ct.Solution(thermo="ideal-gas", kinetics="gas", species=[sp[i] for i in ps], reactions=[rx[i] for i in pr])
    fuel = "H2" if c["f"] == "h2o2.yaml" else "CH4:0.8, H2:0.2"
    for g in (a, b):
        g.TP = c["T"], c["P"]
        g.set_equivalence_ratio(c["phi"], fuel, "O2:1, N2:3" if c["f"] != "h2o2.yaml" else "O2:1, AR:3")
        g.TP = c["T"], c["P"]
    if c["how"] == "reactor":
        cls = {"r": ct.IdealGasReactor, "p": ct.IdealGasConstPressureReactor, "m": ct.IdealGasConstPressureMoleReactor}[c["R"]]
        for g in (a, b):
            r = cls(g); n = ct.ReactorNet([r]); n.rtol = 1e-9; n.atol = 1e-18
            try:
                n.advance(c["t"])
            except ct.CanteraError:
                rec.skip("integration failed")
        rec.hit("reactor")
        rt, at = 2e-3, 1e-7
    else:
        for g in (a, b):
            if c["how"] != "TP":
                g2 = g.HP if c["how"] == "HP" else g.UV if c["how"] == "UV" else g.SP if c["how"] == "SP" else g.SV
            try:
                g.equilibrate(c["how"], solver=c["solver"], rtol=1e-10)
            except ct.CanteraError:
                rec.skip("equilibrium solver failed")
        rec.hit(c["how"]); rt, at = 1e-5, 1e-9
    rec.close("T", b.T, a.T, rt, 0, f"{c['how']} {c['solver']}")
    rec.close("P", b.P, a.P, rt, 0, f"{c['how']} {c['solver']}")
    rec.close("X", b.X, a.X[ps], rt, at, f"{c['how']} {c['solver']}")
