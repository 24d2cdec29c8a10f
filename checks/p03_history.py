"""P03: results depend on the present state only, not on how the object got there.
A case is a phase (with its kinetics and transport) and a history: a sequence of state
changes, property reads and reversible modifications.  After the history the object is
put into a final state; every property must equal that of a newly made object that has
only ever seen the final state.  Non-trivial: the history contains at least three
operations, among them a read before the last change."""
import json
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions
import mechgen

TH = ["T", "P", "density", "h", "s", "g", "u", "cp", "cv", "mean_molecular_weight", "X", "chemical_potentials",
      "partial_molar_enthalpies", "partial_molar_entropies", "partial_molar_cp", "partial_molar_volumes",
      "standard_gibbs_RT", "standard_enthalpies_RT", "standard_entropies_R", "standard_cp_R", "activities",
      "activity_coefficients", "concentrations", "electrochemical_potentials", "thermal_expansion_coeff",
      "isothermal_compressibility"]
KI = ["forward_rate_constants", "reverse_rate_constants", "equilibrium_constants", "forward_rates_of_progress",
      "reverse_rates_of_progress", "net_rates_of_progress", "net_production_rates", "creation_rates",
      "destruction_rates", "delta_enthalpy", "delta_gibbs", "delta_entropy", "delta_standard_gibbs",
      "third_body_concentrations", "net_rates_of_progress_ddT", "net_rates_of_progress_ddP",
      "net_rates_of_progress_ddC", "net_production_rates_ddT"]
TR = ["viscosity", "thermal_conductivity", "mix_diff_coeffs", "mix_diff_coeffs_mass", "mix_diff_coeffs_mole",
      "binary_diff_coeffs", "species_viscosities", "multi_diff_coeffs", "thermal_diff_coeffs", "mobilities"]

def read(p, names):
    out = {}
    for n in names:
        try:
            out[n] = np.array(getattr(p, n), float)
        except NotImplementedError:
            continue
        except ct.CanteraError as e:
            out[n] = "error"
    return out

def names_for(p):
    n = list(TH)
    if isinstance(p, ct.Kinetics) and p.n_reactions:
        n += KI
    if isinstance(p, ct.Transport) and p.transport_model not in ("none", "None", None):
        n += TR
    return n

def compare(rec, p, q, names, tag, rtol=1e-10):
    a, b = read(p, names), read(q, names)
    rec.check(tag + ":available", a.keys() == b.keys(), f"{a.keys() ^ b.keys()}")
    RT = ct.gas_constant * q.T
    for n in a:
        if isinstance(a[n], str) or isinstance(b[n], str):
            rec.check(f"{tag}:{n}", isinstance(a[n], str) == isinstance(b[n], str), f"{a[n]} {b[n]}")
            continue
        at = 0.0
        if n in ("h", "g", "u", "chemical_potentials", "partial_molar_enthalpies", "electrochemical_potentials",
                 "delta_enthalpy", "delta_gibbs", "delta_standard_gibbs"):
            at = 1e-10 * RT
        elif n in ("s", "partial_molar_entropies", "delta_entropy"):
            at = 1e-10 * ct.gas_constant
        elif a[n].size:
            m = np.abs(b[n][np.isfinite(b[n])])
            at = 1e-11 * (m.max() if m.size else 0)
        rt = 1e-5 if "_dd" in n else rtol
        if n.endswith("_ddT"):
            # differences over 1e-8 T of rates that depend on exponentials of ΔG/RT
            with np.errstate(all="ignore"):
                sc = np.abs(q.forward_rates_of_progress).max(initial=0) + np.abs(q.reverse_rates_of_progress).max(initial=0)
            at += 1e-5 * sc / q.T if np.isfinite(sc) else 0.0
        if n.startswith("mix_diff") or n == "mobilities":
            # differences from the pure species
            x = np.sort(np.asarray(q.X))
            rt += 1e-14 / max(x[:-1].sum(), 1e-16) if len(x) > 1 else 0.0
        rec.close(f"{tag}:{n}", a[n], b[n], rt, at, "after the history")

# ------------------------------------------------------------------ thermo of every generated model
@st.composite
def op(draw, n, T, P, names):
    k = draw(st.sampled_from(["state", "state", "T", "P", "X", "D", "read", "read", "readall", "HP", "save", "restore", "phi", "Xone"]))
    if k in ("state", "Xone"):
        return [k, draw(uni(*T)), draw(logu(*P)), draw(fractions(n)), draw(st.integers(0, 20))]
    if k == "T":
        return [k, draw(uni(*T))]
    if k == "P":
        return [k, draw(logu(*P))]
    if k in ("X",):
        return [k, draw(fractions(n))]
    if k == "read":
        return [k, draw(st.sampled_from(names))]
    if k == "phi":
        return [k, draw(st.sampled_from([0.5, -0.5, 0.0]))]
    return [k, draw(st.integers(0, 20))]

def apply(p, ops, slots, rec, names):
    cubic = p.thermo_model in ("Redlich-Kwong", "Peng-Robinson")
    for o in ops:
        k = o[0]
        try:
            if k == "state":
                p.TPX = o[1], o[2], o[3]
            elif k == "Xone":
                x = np.zeros(p.n_species); x[o[4] % p.n_species] = 1
                p.TPX = o[1], o[2], x
            elif k == "T":
                p.TP = o[1], None
            elif k == "P":
                p.TP = None, o[1]
            elif k == "X":
                p.X = o[1]
            elif k == "D":
                if p.is_compressible:
                    p.TD = None, p.density * (1 + 0.05 * (o[1] - 10) / 10)
            elif k == "read":
                getattr(p, o[1])
            elif k == "readall":
                read(p, names)
            elif k == "HP":
                h, q = p.HP
                p.HP = h * (1 + 1e-4 * o[1]) if not cubic else h, q
            elif k == "phi":
                p.electric_potential = o[1]
            elif k == "save":
                slots.append(np.array(p.state))
            elif k == "restore" and slots:
                p.state = slots[o[1] % len(slots)]
        except (ct.CanteraError, NotImplementedError, ValueError):
            pass            # a refused step is part of the history

@st.composite
def thermo_case(draw):
    model = draw(st.sampled_from([m for m in gen.MODELS if m != "plasma"]))
    d = draw(gen.MODELS[model]())
    T, P = d["T"], d["P"]
    if "Tc" in d:
        T = (max(300, 1.1 * d["Tc"]), 2500)
    n = len(d["yaml"]["species"])
    if "molal" in d:
        n = len(d["yaml"]["species"])
    ops = draw(st.lists(op(n, T, P, TH[3:]), min_size=3, max_size=14))
    c = {"model": model, "d": {k: d[k] for k in d if k in ("yaml", "molal", "n")}, "ops": ops,
         "T": draw(uni(*T)), "P": draw(logu(*P)), "X": None if "molal" in d else draw(fractions(n)), "near": draw(st.one_of(st.none(), near_case())),
         "last": draw(st.sampled_from(["TPX", "XTP", "TP,X", "T,P,X", "X,P,T", "state"]))}
    return c

def finish(p, c, X):
    T, P, how = c["T"], c["P"], c["last"]
    p.electric_potential = 0.0
    if how == "TPX":
        p.TPX = T, P, X
    elif how == "XTP":
        p.X = X; p.TP = T, P
    elif how == "TP,X":
        p.TP = T, P
        p.X = X
        if p.is_compressible:
            p.TP = T, P
    elif how == "T,P,X":
        p.TP = T, None; p.TP = None, P; p.X = X
        if p.is_compressible:
            p.TP = None, P
    elif how == "X,P,T":
        p.X = X; p.TP = None, P; p.TP = T, None
        if p.is_compressible:
            p.TP = T, P
    else:
        p.TPX = T, P, X
        s = np.array(p.state)
        p.TPX = T * 1.01, P * 1.1, X if c["X"] is None else np.roll(X, 1)      # (molal models need their solvent)
        read(p, ["h", "chemical_potentials", "density"])
        p.state = s

NEAR = ["TPX", "X,TP", "unnormalized X", "unnormalized Y", "concentrations", "state", "TP,X"]

@st.composite
def near_case(draw):
    """A state that differs a little from the final one, and the way from there."""
    return [draw(st.sampled_from([1e-13, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3])), draw(st.integers(1, 7)), draw(st.sampled_from(NEAR)), draw(st.integers(0, 5))]

def approach(p, q, near, names, rec):
    """Evaluate p at a state close to that of q, then set the state of q."""
    e, which, how, i = near
    T, P, X = q.T, q.P, np.array(q.X)
    x = X.copy()
    if which & 4 and len(X) > 1:
        a = int(np.argmax(x)); b = (a + 1 + i % (len(x) - 1)) % len(x)
        x[a] -= e * X[a]; x[b] += e * X[a]
    if which == 4 and i % 3 == 0:
        x = np.roll(x, 1)       # only the composition changes, and not by little
    try:
        p.TPX = T * (1 + e * (which & 1)), P * (1 + e * (which >> 1 & 1)), x
        read(p, names)
    except ct.CanteraError:
        pass
    if how == "X,TP":
        p.X = X; p.TP = T, P
    elif how == "TP,X" and not p.is_compressible:
        p.TP = T, P; p.X = X
    elif how == "unnormalized X":
        p.set_unnormalized_mole_fractions(X); p.TP = T, P
    elif how == "unnormalized Y":
        p.set_unnormalized_mass_fractions(np.array(q.Y)); p.TP = T, P
    elif how == "concentrations" and p.is_compressible and p.thermo_model != "pure-fluid":
        p.TP = T, None
        p.concentrations = q.density_mole * X
    elif how == "state":
        p.state = q.state
    else:
        p.TPX = T, P, X

@sub("P03", "thermo", thermo_case, quick=1600, thorough=40000, shards=4, tshards=8, floor=0.8,
     rule="14 generated phase models, histories of up to 14 operations, the final state reached by six routes")
def thermo(c, rec):
    y = json.dumps(c["d"]["yaml"])
    p, q = ct.Solution(yaml=y), ct.Solution(yaml=y)
    X = np.array(c["X"] if c["X"] is not None else gen.molal_X(c["d"], p.molecular_weights))
    try:
        q.TPX = c["T"], c["P"], X
    except ct.CanteraError:
        rec.skip("final state refused")
    apply(p, c["ops"], [], rec, TH)
    try:
        finish(p, c, X)
    except ct.CanteraError as e:
        if p.thermo_model in ("Redlich-Kwong", "Peng-Robinson"):
            # intermediate states of the route can be unstable for real gases
            p.TPX = c["T"], c["P"], X
        else:
            raise
    tag = c["model"]
    rt = 1e-10
    if tag in ("Redlich-Kwong", "Peng-Robinson"):
        rt = 1e-8
    elif "molal" in c["d"]:
        rt = 1e-7
    compare(rec, p, q, TH, tag, rt)
    if c["near"]:
        approach(p, q, c["near"], TH, rec)
        compare(rec, p, q, TH, tag, rt)
        rec.hit("near by " + c["near"][2])
    if len(c["ops"]) >= 3:
        rec.hit(tag)

# ------------------------------------------------------------------ adding species later
GROW = ["ideal-gas", "Redlich-Kwong", "Peng-Robinson", "ideal-condensed", "ideal-surface", "ideal-solution-VPSS"]

@st.composite
def grow_case(draw):
    model = draw(st.sampled_from(GROW))
    d = draw(gen.MODELS[model]())
    T, P = d["T"], d["P"]
    if "Tc" in d:
        T = (max(300, 1.1 * d["Tc"]), 2500)
    n = len(d["yaml"]["species"])
    k = draw(st.integers(1, max(n - 1, 1)))
    return {"model": model, "d": {"yaml": d["yaml"]}, "k": k, "ops": draw(st.lists(op(k, T, P, TH[3:]), max_size=5)), "later": draw(st.lists(op(n, T, P, TH[3:]), max_size=5)),
            "T": draw(uni(*T)), "P": draw(logu(*P)), "X": draw(fractions(n)), "last": draw(st.sampled_from(["TPX", "XTP", "TP,X", "state"])), "read": draw(st.booleans())}

@sub("P03", "grown", grow_case, quick=700, thorough=20000, shards=1, tshards=8, floor=0.5,
     rule="a phase used with some of its species, to which the others are added one by one, against a phase made with all of them")
def grown(c, rec):
    y = c["d"]["yaml"]; k = c["k"]
    q = ct.Solution(yaml=json.dumps(y))
    part = json.loads(json.dumps(y))
    names = part["phases"][0]["species"]
    if len(names) <= k:
        rec.skip("one species")
    part["phases"][0]["species"] = names[:k]; part["species"] = part["species"][:k]
    p = ct.Solution(yaml=json.dumps(part))
    try:
        q.TPX = c["T"], c["P"], c["X"]
    except ct.CanteraError:
        rec.skip("final state refused")
    apply(p, c["ops"], [], rec, TH)
    for s in names[k:]:
        if c["model"] == "ideal-solution-VPSS":
            # species of these phases can only be specified by the input file
            try:
                p.add_species(q.species(s))
            except ct.CanteraError:
                rec.skip("species refused")
        else:
            p.add_species(q.species(s))
        if c["read"]:
            read(p, TH)
    rec.check("names", p.species_names == q.species_names, f"{p.species_names}")
    apply(p, c["later"], [], rec, TH)
    try:
        finish(p, c, np.array(c["X"]))
    except ct.CanteraError:
        if p.thermo_model not in ("Redlich-Kwong", "Peng-Robinson"):
            raise
        p.TPX = c["T"], c["P"], c["X"]
    compare(rec, p, q, TH, "grown " + c["model"], 1e-8 if p.thermo_model in ("Redlich-Kwong", "Peng-Robinson") else 1e-10)
    rec.hit(c["model"])

# ------------------------------------------------------------------ kinetics and transport
@st.composite
def kin_case(draw):
    m = draw(mechgen.gas_mech())
    n = m["n"]
    T, P = (400, 2800), (1e3, 3e6)
    names = TH[3:] + KI * 2 + TR * 2
    ops = draw(st.lists(st.one_of(op(n, T, P, names), kop()), min_size=3, max_size=14))
    return {"m": m["yaml"], "ops": ops, "T": draw(uni(*T)), "P": draw(logu(*P)), "X": draw(fractions(n)), "near": draw(st.one_of(st.none(), near_case())),
            "last": draw(st.sampled_from(["TPX", "XTP", "TP,X", "T,P,X", "X,P,T", "state"]))}

@st.composite
def kop(draw):
    return [draw(st.sampled_from(["mult", "mod-reaction", "mod-species", "derivset", "add", "transport", "readall"])), draw(st.integers(0, 30)),
            draw(st.sampled_from([0.0, 0.5, 2.0, 3.0]))]

def kapply(p, ops, rec):
    names = names_for(p)
    slots = []
    for o in ops:
        if o[0] in ("mult", "mod-reaction", "mod-species", "derivset", "add", "transport"):
            if not p.n_reactions:
                continue
            i = o[1] % p.n_reactions
            if o[0] == "mult":
                p.set_multiplier(o[2], i)
                read(p, ["net_production_rates"])
                p.set_multiplier(1.0, i)
            elif o[0] == "mod-reaction":
                R = p.reaction(i)
                d = R.input_data
                alt = dict(d)
                if R.reaction_type in ("Arrhenius", "three-body-Arrhenius"):
                    rc = dict(d["rate-constant"]); rc["A"] = rc["A"] * (1.5 + o[2]); alt["rate-constant"] = rc
                    p.modify_reaction(i, ct.Reaction.from_dict(alt, kinetics=p))
                    read(p, ["net_production_rates"])
                    p.modify_reaction(i, ct.Reaction.from_dict(d, kinetics=p))
            elif o[0] == "mod-species":
                k = o[1] % p.n_species
                S = p.species(k)
                old = S.thermo
                co = np.array(old.coeffs)
                if isinstance(old, ct.NasaPoly2):
                    new = co.copy(); new[[6, 13]] += 500 * (1 + o[2])
                    S.thermo = ct.NasaPoly2(old.min_temp, old.max_temp, old.reference_pressure, new)
                    p.modify_species(k, S)
                    read(p, ["net_production_rates", "h"])
                    S.thermo = ct.NasaPoly2(old.min_temp, old.max_temp, old.reference_pressure, co)
                    p.modify_species(k, S)
            elif o[0] == "derivset":
                p.derivative_settings = {"skip-third-bodies": bool(o[1] % 2), "skip-falloff": bool(o[1] % 3 == 0), "rtol-delta": 1e-8}
                read(p, KI[-4:])
                p.derivative_settings = {"skip-third-bodies": False, "skip-falloff": False, "rtol-delta": 1e-8}
            elif o[0] == "transport":
                try:
                    read(p, TR)
                    p.transport_model = ["mixture-averaged", "multicomponent", "unity-Lewis-number"][o[1] % 3]
                    read(p, TR)
                    p.transport_model = "multicomponent"
                except ct.CanteraError:
                    p.transport_model = "multicomponent"
        else:
            apply(p, [o], slots, rec, names)

@sub("P03", "kinetics", kin_case, quick=900, thorough=24000, shards=5, tshards=8, floor=0.8,
     rule="generated mechanisms with every bulk rate type and multicomponent transport; histories also set and reset "
          "multipliers, replace and restore reactions and species data, and switch transport models")
def kinetics(c, rec):
    y = json.dumps(c["m"])
    try:
        p, q = ct.Solution(yaml=y), ct.Solution(yaml=y)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    q.derivative_settings = p.derivative_settings = {"skip-third-bodies": False, "skip-falloff": False, "rtol-delta": 1e-8}
    X = np.array(c["X"])
    q.TPX = c["T"], c["P"], X
    kapply(p, c["ops"], rec)
    finish(p, c, X)
    compare(rec, p, q, names_for(q), "gas", 1e-9)
    if c["near"]:
        approach(p, q, c["near"], names_for(p), rec)
        compare(rec, p, q, names_for(q), "gas", 1e-9)
        rec.hit("near by " + c["near"][2])
    if len(c["ops"]) >= 3:
        rec.hit()

# ------------------------------------------------------------------ kinetics of condensed phases
@st.composite
def liquid_case(draw):
    m = draw(mechgen.gas_mech(1, 6, types=["elementary", "elementary", "Blowers-Masel", "three-body", "Lindemann"], with_transport=None))
    y = m["yaml"]; n = m["n"]
    ph = y["phases"][0]
    ph["thermo"] = draw(st.sampled_from(["ideal-condensed", "ideal-condensed", "ideal-solution-VPSS"]))
    ph["kinetics"] = "bulk"
    ph["standard-concentration-basis"] = draw(st.sampled_from(["unity", "species-molar-volume", "solvent-molar-volume"]))
    for s in y["species"]:
        s["equation-of-state"] = {"model": "constant-volume", "molar-volume": draw(uni(0.005, 0.2, 1000))}
    T, P = (400, 2000), (1e4, 1e9)
    names = TH[3:] + KI * 2
    return {"m": y, "ops": draw(st.lists(st.one_of(op(n, T, P, names), kop().filter(lambda o: o[0] not in ("transport", "add", "mod-species"))), min_size=2, max_size=10)), "T": draw(uni(*T)), "P": draw(logu(*P)), "X": draw(fractions(n)),
            "only": draw(st.sampled_from(["P", "P", "T", "X"])), "near": draw(st.one_of(st.none(), near_case())), "last": draw(st.sampled_from(["TPX", "XTP", "TP,X", "T,P,X", "X,P,T", "state"]))}

@sub("P03", "condensed kinetics", liquid_case, quick=350, thorough=10000, shards=1, tshards=8, floor=0.8,
     rule="reactions in incompressible phases, where pressure enters the standard states but not the density; at the end pressure, temperature or composition alone is changed")
def liquid(c, rec):
    y = json.dumps(c["m"])
    try:
        p, q = ct.Solution(yaml=y), ct.Solution(yaml=y)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    if not p.n_reactions:
        rec.skip("no reactions")
    q.TPX = c["T"], c["P"], c["X"]
    names = TH + [k for k in KI if "_ddT" not in k]
    kapply(p, c["ops"], rec)
    X = np.array(c["X"])
    finish(p, c, X)
    tag = "condensed " + p.thermo_model
    compare(rec, p, q, names, tag, 1e-9)
    if c["only"] == "P":
        p.TP = None, c["P"] * 10 if c["P"] < 1e7 else c["P"] / 100
    elif c["only"] == "T":
        p.TP = c["T"] * 1.1, None
    else:
        p.X = np.roll(X, 1)
    r = ct.Solution(yaml=y); r.TPX = p.T, p.P, p.X
    compare(rec, p, r, names, tag + " " + c["only"] + " only", 1e-9)
    if c["near"]:
        approach(p, q, c["near"], names, rec)
        compare(rec, p, q, names, tag + " near", 1e-9)
    rec.hit(c["only"] + " only")

# ------------------------------------------------------------------ interfaces
KS = [k for k in KI if k not in ("third_body_concentrations",) and "_dd" not in k] + ["delta_standard_enthalpy"]

@st.composite
def sop(draw, ng, ns):
    k = draw(st.sampled_from(["gas", "P", "T", "cov", "cov1", "phi", "mult", "read", "read", "readall", "site", "advance", "setT-surf"]))
    return [k, draw(uni(300, 1800)), draw(logu(1e2, 1e6)), draw(fractions(ng)), draw(fractions(ns)), draw(st.integers(0, 40)),
            draw(st.sampled_from([0.0, 0.4, -0.7]))]

@st.composite
def surf_hist(draw):
    m = draw(mechgen.surf_mech())
    return {"m": m["yaml"], "kind": m["kind"], "ops": draw(st.lists(sop(m["ng"], m["ns"]), min_size=3, max_size=12)),
            "T": draw(uni(300, 1800)), "P": draw(logu(1e2, 1e6)), "Xg": draw(fractions(m["ng"])), "th": draw(fractions(m["ns"])),
            "phi": [draw(st.sampled_from([0.0, 0.3, -0.8])) for _ in range(3)], "last": draw(st.permutations(["g", "s", "p"]))}

def sfinal(s, c):
    adj = list(s.adjacent.values())
    for w in c["last"]:
        if w == "g":
            for ph in adj:
                if ph.n_species > 1:
                    ph.TPX = c["T"], c["P"], c["Xg"]
                else:
                    ph.TP = c["T"], c["P"]
        elif w == "s":
            s.TP = c["T"], c["P"]
            s.coverages = c["th"]
        else:
            for ph, v in zip([s] + adj, c["phi"]):
                ph.electric_potential = v

@sub("P03", "interface", surf_hist, quick=1000, thorough=30000, shards=3, tshards=8, floor=0.9,
     rule="surface and charge-transfer mechanisms; histories change bulk states, coverages, potentials, multipliers and site density")
def interface(c, rec):
    y = json.dumps(c["m"])
    try:
        p, q = ct.Interface(yaml=y, name="surf"), ct.Interface(yaml=y, name="surf")
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    if not p.n_reactions:
        rec.skip("no reactions")
    sfinal(q, c)
    adj = list(p.adjacent.values())
    site0 = p.site_density
    for o in c["ops"]:
        k, T, P, Xg, th, i, v = o
        try:
            if k == "gas" and adj[0].n_species > 1:
                adj[0].TPX = T, P, Xg
            elif k == "P":
                adj[0].TP = None, P
            elif k == "T":
                for ph in [p] + adj:
                    ph.TP = T, None
            elif k == "setT-surf":
                p.TP = T, None
            elif k == "cov":
                p.coverages = th
            elif k == "cov1":
                x = np.zeros(p.n_species); x[i % p.n_species] = 1
                p.coverages = x
            elif k == "phi":
                ([p] + adj)[i % (1 + len(adj))].electric_potential = v
            elif k == "mult":
                p.set_multiplier(2.5, i % p.n_reactions)
                read(p, ["net_production_rates"])
                p.set_multiplier(1.0, i % p.n_reactions)
            elif k == "read":
                getattr(p, KS[i % len(KS)])
            elif k == "readall":
                read(p, KS)
            elif k == "site":
                p.site_density = site0 * 1.7
                read(p, KS)
                p.site_density = site0
            elif k == "advance" and c["kind"] == "surface":
                p.advance_coverages(1e-9)
        except (ct.CanteraError, NotImplementedError):
            pass
    sfinal(p, c)
    compare(rec, p, q, KS + ["coverages", "T", "site_density"], c["kind"], 1e-9)
    for a, b in zip(adj, q.adjacent.values()):
        compare(rec, a, b, ["chemical_potentials", "partial_molar_enthalpies", "T", "P", "X", "density"], c["kind"] + ":bulk", 1e-9)
    # each bulk phase in turn, with a read between the changes
    P2 = c["P"] * 3
    read(p, KS)
    for s in (p, q):
        list(s.adjacent.values())[0].TP = None, P2
    read(q, [])
    r = ct.Interface(yaml=y, name="surf")
    sfinal(r, dict(c, P=P2))
    for s in (p, r):
        s.TP = c["T"], c["P"]
        for a in list(s.adjacent.values())[1:]:
            a.TP = c["T"], c["P"]
    compare(rec, p, r, KS, c["kind"] + ":P-only", 1e-9)
    V2 = 0.25
    list(p.adjacent.values())[-1].electric_potential = V2
    list(r.adjacent.values())[-1].electric_potential = V2
    rr = ct.Interface(yaml=y, name="surf")
    sfinal(rr, dict(c, P=P2))
    list(rr.adjacent.values())[-1].electric_potential = V2
    rr.TP = c["T"], c["P"]
    for a in list(rr.adjacent.values())[1:]:
        a.TP = c["T"], c["P"]
    compare(rec, p, rr, KS, c["kind"] + ":V-only", 1e-9)
    rec.hit(c["kind"])
