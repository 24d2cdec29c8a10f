"""P08: rates follow the documented rate expressions.
A case is a generated reaction mechanism (bulk, interface or electrochemical) and a state.
Every rate constant, equilibrium constant, third-body concentration, rate of progress and
production rate is compared with a reference evaluation written from the documentation
(checks/mechref.py) that works on the reaction entries themselves.  Non-trivial: the
mechanism has at least one reaction with a nonzero rate of progress."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen, mechref
from gen import uni, logu, fractions

R = ct.gas_constant
BIG = 1e290

def load(rec, y, **kw):
    try:
        return ct.Solution(yaml=json.dumps(y), **kw)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise

def cmp(rec, tag, got, want, rtol, atol=0.0, rx=None):
    got = np.asarray(got, float); want = np.asarray(want, float)
    ok = np.abs(want) < BIG
    ok &= np.abs(want) > 1e-250
    ok |= want == 0
    ok &= ~np.isnan(want)
    for i in range(len(want)):
        if ok[i]:
            t = ""
            if rx is not None:
                d = rx[i]
                t = ":" + d.get("type", "")
            rec.close(tag + t, got[i], want[i], rtol, atol if np.ndim(atol) == 0 else atol[i],
                      json.dumps(rx[i])[:600] if rx is not None else f"element {i}")

@st.composite
def bulk_case(draw):
    m = draw(mechgen.gas_mech(nmin=2, nmax=9, with_transport=None,
                              model=draw(st.sampled_from(["ideal-gas", "ideal-gas", "ideal-gas", "Redlich-Kwong"]))))
    nr = len(m["yaml"]["reactions"])
    return {"m": m["yaml"], "n": m["n"], "T": draw(uni(300, 3000)), "P": draw(logu(1e2, 1e7)), "X": draw(fractions(m["n"])),
            "mult": [draw(st.sampled_from([1.0, 1.0, 1.0, 0.0, 2.5])) for _ in range(nr)] if draw(st.booleans()) else []}

@sub("P08", "bulk", bulk_case, quick=4000, thorough=120000, shards=4, tshards=8, floor=0.8,
     rule="all bulk rate types (elementary, three-body, falloff with four blending functions, chemically activated, P-log, "
          "Chebyshev, Blowers-Masel, linear-Burke), reaction orders, efficiencies, multipliers")
def bulk(c, rec):
    g = load(rec, c["m"])
    rx = c["m"]["reactions"]
    g.TPX = c["T"], c["P"], c["X"]
    rec.check("count", g.n_reactions == len(rx), f"{g.n_reactions}")
    if not rx:
        rec.skip("no reactions")
    mult = np.ones(len(rx))
    for i, v in enumerate(c["mult"]):
        g.set_multiplier(v, i); mult[i] = v
    ref = mechref.Bulk(g.species_names, rx)
    RT = R * g.T
    # activity concentrations: the reference works with c0 * a
    ideal = g.thermo_model == "ideal-gas"
    c0 = np.full(g.n_species, g.P / RT)
    ac = g.activities * c0
    o = ref.eval(g.T, g.P, g.X, ac if ideal else ac, g.partial_molar_enthalpies, g.standard_gibbs_RT * RT, c0)
    if not ideal:
        # third bodies count molecules: physical concentrations
        o2 = ref.eval(g.T, g.P, g.X, g.concentrations, g.partial_molar_enthalpies, g.standard_gibbs_RT * RT, c0)
        bulkM = mechref.Bulk(g.species_names, rx)
        o = merge(ref, g, ac, c0, RT)
    rt = 1e-9
    tot = g.concentrations.sum()
    for i, m in enumerate(o["M"]):
        # hardly any third body: the sum over efficiencies cancels
        if abs(m) < 1e-7 * tot:
            for k in ("kf", "kr", "ropf", "ropr"):
                o[k][i] = math.nan
    cmp(rec, "kf", g.forward_rate_constants, np.array(o["kf"]) * mult, rt, 0, rx)
    cmp(rec, "Kc", g.equilibrium_constants, o["Kc"], 1e-8, 0, rx)
    cmp(rec, "kr", g.reverse_rate_constants, np.array(o["kr"]) * mult, 1e-8, 0, rx)
    M = np.array(o["M"])
    tb = g.third_body_concentrations
    for i, d in enumerate(rx):
        if not math.isnan(M[i]):
            rec.close("M", tb[i], M[i], 1e-12, 1e-13 * tot, json.dumps(d)[:400])
    ropf, ropr = np.array(o["ropf"]) * mult, np.array(o["ropr"]) * mult
    cmp(rec, "ropf", g.forward_rates_of_progress, ropf, rt, 1e-300, rx)
    cmp(rec, "ropr", g.reverse_rates_of_progress, ropr, 1e-8, 1e-300, rx)
    rates(rec, g, ref, rx)
    if (g.net_rates_of_progress != 0).any():
        rec.hit()
    for d in rx:
        rec.label(d.get("type", "elementary") + (":" + next((k for k in ("Troe", "SRI", "Tsang") if k in d), "") if "low-P-rate-constant" in d else ""))

def merge(ref, g, ac, c0, RT):
    """Non-ideal gas: activities in the mass-action products, molecules in third bodies."""
    class B(mechref.Bulk):
        pass
    o = {k: [] for k in ("kf", "Kc", "kr", "M", "ropf", "ropr", "dH", "dG0")}
    conc = g.concentrations
    for j in range(len(ref.rx)):
        one = mechref.Bulk(ref.names, [ref.rx[j]])
        h, gg = g.partial_molar_enthalpies, g.standard_gibbs_RT * RT
        a = one.eval(g.T, g.P, g.X, ac, h, gg, c0)
        b = one.eval(g.T, g.P, g.X, conc, h, gg, c0)
        L, Rr, rev, three, fall, eff, sp = one.p[0]
        k = b["kf"][0]
        o["kf"].append(k); o["Kc"].append(a["Kc"][0]); o["M"].append(b["M"][0])
        kr = (k / a["Kc"][0] if a["Kc"][0] else math.inf) if rev else 0.0
        o["kr"].append(kr)
        d = ref.rx[j]
        A = dict(zip(ref.names, ac))
        order = {s: float(n) for s, n in L.items()}; order.update(d.get("orders", {}))
        f, r = k, kr
        for s, n in order.items():
            f *= A[s]**n if (A[s] > 0 or n >= 0) else math.inf
        for s, n in Rr.items():
            r *= A[s]**n
        both = [s for s in L if s in Rr]
        if three:
            f *= b["M"][0]; r *= b["M"][0]
        elif len(both) == 1 and eff is None and (d.get("type") == "three-body" or 3 in (sum(L.values()), sum(Rr.values()))):
            # an explicit collider counts molecules as well
            w = dict(zip(ref.names, conc))[both[0]]
            if A[both[0]]:
                f *= w / A[both[0]]; r *= w / A[both[0]]
        o["ropf"].append(f); o["ropr"].append(r); o["dH"].append(a["dH"][0]); o["dG0"].append(a["dG0"][0])
    return o

def rates(rec, g, ref, rx, tag=""):
    """Everything derived from the rates of progress by stoichiometry."""
    nr, npp = ref.stoich()
    qf, qr, qn = g.forward_rates_of_progress, g.reverse_rates_of_progress, g.net_rates_of_progress
    fin = np.isfinite(qf) & np.isfinite(qr) & (np.abs(qf) < 1e250) & (np.abs(qr) < 1e250)
    if not fin.all():
        return
    rec.close(tag + "rop-net", qn, qf - qr, 1e-13, 1e-13 * np.maximum(np.abs(qf), np.abs(qr)))
    cre = npp @ qf + nr @ qr
    des = nr @ qf + npp @ qr
    sc = (npp + nr) @ (np.abs(qf) + np.abs(qr))
    # explicit colliders cancel from creation and destruction (they are not stoichiometric species)
    net = (npp - nr) @ qn
    rec.close(tag + "production", g.net_production_rates, net, 1e-10, 1e-12 * sc)
    rec.close(tag + "creation-destruction", g.creation_rates - g.destruction_rates, net, 1e-10, 1e-12 * sc)
    rec.check(tag + "creation>=0", (g.creation_rates >= -1e-300).all() and (g.destruction_rates >= -1e-300).all() or (qf < 0).any() or (qr < 0).any())
    c2, d2 = cre.copy(), des.copy()
    for j, (L, Rr, *_r) in enumerate(ref.p):
        for s in L:
            if s in Rr:
                c2[ref.names.index(s)] = d2[ref.names.index(s)] = np.nan
    m = ~np.isnan(c2)
    rec.close(tag + "creation", g.creation_rates[m], cre[m], 1e-10, 1e-12 * sc[m])
    rec.close(tag + "destruction", g.destruction_rates[m], des[m], 1e-10, 1e-12 * sc[m])
    RT = R * g.T
    for name, prop in (("delta_enthalpy", "partial_molar_enthalpies"), ("delta_gibbs", "chemical_potentials"),
                       ("delta_entropy", "partial_molar_entropies")):
        try:
            v = getattr(g, prop) if not isinstance(g, ct.Interface) else all_phases(g, prop)
        except NotImplementedError:
            continue        # metals offer no entropies
        rec.close(tag + name, getattr(g, name), v @ (npp - nr), 1e-10, 1e-11 * np.abs(v).max() * 6)
    for name, prop, k in (("delta_standard_enthalpy", "standard_enthalpies_RT", RT), ("delta_standard_gibbs", "standard_gibbs_RT", RT),
                          ("delta_standard_entropy", "standard_entropies_R", R)):
        try:
            v = (getattr(g, prop) if not isinstance(g, ct.Interface) else all_phases(g, prop)) * k
        except NotImplementedError:
            continue
        rec.close(tag + name, getattr(g, name), v @ (npp - nr), 1e-10, 1e-11 * np.abs(v).max() * 6)
    if not isinstance(g, ct.Interface):
        h = g.partial_molar_enthalpies
        rec.close(tag + "heat_release_rate", g.heat_release_rate, -(qn @ (h @ (npp - nr))), 1e-9, 1e-11 * np.abs(h).max() * sc.sum())
        rec.close(tag + "heat_production_rates", g.heat_production_rates, -qn * (h @ (npp - nr)), 1e-9, 1e-11 * np.abs(h).max() * np.maximum(np.abs(qf), np.abs(qr)) * 6)

def std(p, prop):
    """Standard-state property; the electron gas of a metal has unit activity."""
    try:
        return getattr(p, prop)
    except NotImplementedError:
        alt = {"standard_gibbs_RT": ("chemical_potentials", R * p.T), "standard_enthalpies_RT": ("partial_molar_enthalpies", R * p.T),
               "standard_entropies_R": ("partial_molar_entropies", R)}[prop]
        return getattr(p, alt[0]) / alt[1]

def all_phases(s, prop):
    """Concatenated in the order of the kinetics species."""
    ph = [s] + [s.adjacent[n] for n in s.adjacent]
    ix = {}
    out = np.zeros(s.n_total_species)
    for p in ph:
        v = std(p, prop) if prop.startswith('standard') else getattr(p, prop)
        for i, n in enumerate(p.species_names):
            out[s.kinetics_species_index(n)] = v[i]
    return out

# ------------------------------------------------------------------ interfaces
@st.composite
def surf_case(draw):
    m = draw(mechgen.surf_mech())
    return {"m": m["yaml"], "kind": m["kind"], "T": draw(uni(300, 1800)), "P": draw(logu(1e2, 1e6)), "Xg": draw(fractions(m["ng"])),
            "th": draw(fractions(m["ns"])), "phi": [draw(st.sampled_from([0.0, 0.0, 0.3, -0.8])) for _ in range(3)],
            "mult": [draw(st.sampled_from([1.0, 1.0, 0.0, 2.5])) for _ in range(len(m["yaml"]["surf-reactions"]))]}

def put_surf(s, c):
    order = []
    for n, ph in s.adjacent.items():
        order.append(ph)
        if ph.n_species > 1:
            ph.TPX = c["T"], c["P"], c["Xg"]
        else:
            ph.TP = c["T"], c["P"]
    s.TP = c["T"], c["P"]
    s.coverages = c["th"]
    for ph, v in zip([s] + order, c["phi"]):
        ph.electric_potential = v
    return [s] + order

def load_surf(rec, c):
    try:
        return ct.Interface(yaml=json.dumps(c["m"]), name="surf")
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise

def ref_interface(s, c, rx):
    """Reference rate constants etc. for an interface object in its present state."""
    T = s.T
    RT = R * T
    phases = [s] + list(s.adjacent.values())
    H, G0, C0, AC, z, V, W, size, names = {}, {}, {}, {}, {}, {}, {}, {}, []
    for p in phases:
        for k, n in enumerate(p.species_names):
            H[n] = p.partial_molar_enthalpies[k]; G0[n] = std(p, 'standard_gibbs_RT')[k] * RT
            z[n] = p.charges[k]; V[n] = p.electric_potential; W[n] = p.molecular_weights[k]
            if p is s:
                size[n] = p.species(k).size
                C0[n] = p.site_density / size[n]
            elif p.thermo_model == "ideal-gas":
                C0[n] = p.P / RT
            else:
                C0[n] = 1.0
            AC[n] = p.activities[k] * C0[n]
    theta = dict(zip(s.species_names, s.coverages))
    gas = {n for p in phases[1:] for n in p.species_names}
    names = [s.kinetics_species_name(i) for i in range(s.n_total_species)]
    motz = bool(c["m"]["phases"][-1].get("Motz-Wise", False))
    o = {k: [] for k in ("kf", "Kc", "kr", "ropf", "ropr")}
    ref = mechref.Bulk(names, rx)
    for d, (L, Rr, rev, three, fall, eff, sp) in zip(rx, ref.p):
        def delta(f):
            return sum(n * f[x] for x, n in Rr.items()) - sum(n * f[x] for x, n in L.items())
        zF = {n: mechref.F * z[n] * V[n] for n in names}
        # net charge moved between phases
        q = {}
        for x, n in Rr.items(): q[phase_of(phases, x)] = q.get(phase_of(phases, x), 0) + n * z[x]
        for x, n in L.items(): q[phase_of(phases, x)] = q.get(phase_of(phases, x), 0) - n * z[x]
        echem = any(abs(v) > 1e-8 for v in q.values())
        kf = mechref.interface_k(d, L, Rr, T, theta, s.site_density, size, W, set(s.species_names), gas, delta(H), motz,
                                 dphi=delta(zF) if echem else None, dG0=delta(G0),
                                 c0prod=np.prod([C0[x] for x in Rr]))
        lnK = -(delta(G0) + delta(zF)) / RT
        for x, n in Rr.items(): lnK += n * math.log(C0[x])
        for x, n in L.items(): lnK -= n * math.log(C0[x])
        Kc = math.exp(lnK) if abs(lnK) < 650 else math.inf
        kr = kf / Kc if rev else 0.0
        order = {x: float(n) for x, n in L.items()}; order.update(d.get("orders", {}))
        f, r = kf, kr
        for x, n in order.items(): f *= AC[x]**n if (AC[x] > 0 or n >= 0) else math.inf
        for x, n in Rr.items(): r *= AC[x]**n
        for k, v in zip(("kf", "Kc", "kr", "ropf", "ropr"), (kf, Kc, kr if abs(lnK) < 650 else math.nan, f, r if abs(lnK) < 650 else math.nan)):
            o[k].append(v)
    return ref, o

def phase_of(phases, n):
    return next(i for i, p in enumerate(phases) if n in p.species_names)

@sub("P08", "interface", surf_case, quick=3000, thorough=80000, shards=4, tshards=8, floor=0.8,
     rule="surface reactions (Arrhenius and Blowers-Masel; sticking with and without Motz-Wise; coverage dependencies; multi-site "
          "species; orders) and charge-transfer reactions (transfer coefficients, exchange current densities, electric potentials)")
def interface(c, rec):
    s = load_surf(rec, c)
    rx = c["m"]["surf-reactions"]
    if not rx:
        rec.skip("no reactions")
    put_surf(s, c)
    mult = np.array(c["mult"])
    for i, v in enumerate(mult):
        s.set_multiplier(v, i)
    ref, o = ref_interface(s, c, rx)
    cmp(rec, "kf", s.forward_rate_constants, np.array(o["kf"]) * mult, 1e-9, 0, rx)
    cmp(rec, "Kc", s.equilibrium_constants, o["Kc"], 1e-8, 0, rx)
    cmp(rec, "kr", s.reverse_rate_constants, np.array(o["kr"]) * mult, 1e-8, 0, rx)
    cmp(rec, "ropf", s.forward_rates_of_progress, np.array(o["ropf"]) * mult, 1e-8, 1e-300, rx)
    cmp(rec, "ropr", s.reverse_rates_of_progress, np.array(o["ropr"]) * mult, 1e-8, 1e-300, rx)
    rates(rec, s, ref, rx)
    # per-phase production rates are slices of the whole
    tot = s.net_production_rates
    for p in [s] + list(s.adjacent.values()):
        v = s.get_net_production_rates(p)
        w = [tot[s.kinetics_species_index(n)] for n in p.species_names]
        rec.close("per-phase", v, w, 0, 0)
    if (s.net_rates_of_progress != 0).any():
        rec.hit(c["kind"])
    for d in rx:
        rec.label(("stick" if "sticking-coefficient" in d else "arr") + ("+cov" if "coverage-dependencies" in d else "") + d.get("type", "")
                  + ("+ecd" if d.get("exchange-current-density-formulation") else ""))

# ------------------------------------------------------------------ rate objects on their own
@st.composite
def alone_case(draw):
    t = draw(st.sampled_from(["Arrhenius", "falloff", "falloff", "falloff", "plog", "chebyshev", "Blowers-Masel", "two-temp", "reaction-yaml"]))
    r = None
    names = list(mechgen.SETS[0][:7])
    eqs = mechgen.balanced(tuple(names))
    types = {"Arrhenius": ["elementary"], "falloff": ["Lindemann", "Troe", "SRI", "Tsang", "chem-act"], "plog": ["plog"], "chebyshev": ["chebyshev"],
             "Blowers-Masel": ["Blowers-Masel"], "two-temp": ["elementary"], "reaction-yaml": ["plog", "elementary", "chebyshev"]}[t]
    d = None
    for i in range(6):
        r = draw(mechgen.reaction(names, [e for e in eqs if len(e[0]) <= 2], types, False))
        if r:
            break
    d = r[0]
    d.pop("efficiencies", None)
    if t == "two-temp":
        k = draw(mechgen.arr(2))
        d = {"equation": "H + OH => H + OH", "type": "two-temperature-plasma",
             "rate-constant": {"A": k["A"], "b": k["b"], "Ea-gas": draw(uni(0, 1e8)), "Ea-electron": draw(uni(-5e7, 1e8))}}
    return {"t": t, "d": d, "T": draw(uni(300, 3000)), "x": draw(logu(1e-7, 10)), "P": draw(logu(1e2, 3e7)), "Te": draw(uni(400, 4e4)),
            "dH": draw(uni(-9e8, 9e8)), "how": draw(st.sampled_from(["dict", "ctor", "update"]))}

@sub("P08", "rate-objects", alone_case, quick=6000, thorough=200000, shards=1, tshards=8, floor=0.9,
     rule="ReactionRate objects built from entries or from their constructors, evaluated alone, with parameters read back and replaced")
def alone(c, rec):
    d, T, t = c["d"], c["T"], c["t"]
    if t == "reaction-yaml":
        t = {"pressure-dependent-Arrhenius": "plog", "Chebyshev": "chebyshev"}.get(d.get("type"), "Arrhenius")
    A3 = lambda k: (k["A"], k["b"], k["Ea"])
    ctor = c["how"] == "ctor"
    if t == "Arrhenius":
        k = d["rate-constant"]
        r = ct.ArrheniusRate(*A3(k)) if ctor else ct.ReactionRate.from_dict(d)
        want = mechref.arr(k, T); got = r(T)
        rec.close("A", [r.pre_exponential_factor, r.temperature_exponent, r.activation_energy], [k["A"], k["b"], k["Ea"]], 1e-13)
    elif t == "falloff":
        chem = d["type"] == "chemically-activated"
        if ctor and not chem:
            lo, hi = ct.Arrhenius(*A3(d["low-P-rate-constant"])), ct.Arrhenius(*A3(d["high-P-rate-constant"]))
            if "Troe" in d:
                q = d["Troe"]; co = [q["A"], q["T3"], q["T1"]] + ([q["T2"]] if "T2" in q else []); cls = ct.TroeRate
            elif "SRI" in d:
                q = d["SRI"]; co = [q["A"], q["B"], q["C"]] + ([q["D"], q["E"]] if "D" in q else []); cls = ct.SriRate
            elif "Tsang" in d:
                q = d["Tsang"]; co = [q["A"], q["B"]]; cls = ct.TsangRate
            else:
                co = []; cls = ct.LindemannRate
            r = cls(lo, hi, co)
            rec.close("falloff-coeffs", r.falloff_coeffs, co, 1e-13) if len(co) == len(r.falloff_coeffs) else None
        else:
            r = ct.ReactionRate.from_dict(d)
        rec.check("chem-act", r.chemically_activated == chem)
        want = mechref.falloff_k(d, T, c["x"], chem); got = r(T, c["x"])
        k0, ki = mechref.arr(d["low-P-rate-constant"], T), mechref.arr(d["high-P-rate-constant"], T)
        rec.close("low", r.low_rate(T), k0, 1e-11); rec.close("high", r.high_rate(T), ki, 1e-11)
        Pr = k0 * c["x"] / ki
        if 1e-30 < Pr < 1e30:
            F = want / (k0 / (1 + Pr) if chem else ki * Pr / (1 + Pr))
            if want:
                rec.close("falloff-function", r.falloff_function(T, c["x"]), F, 1e-9)
    elif t == "plog":
        r = (ct.PlogRate([(k["P"], ct.Arrhenius(*A3(k))) for k in d["rate-constants"]]) if ctor else ct.ReactionRate.from_dict(d))
        want = mechref.plog_k(d["rate-constants"], T, c["P"]); got = r(T, c["P"])
        back = [{"P": p, "A": a.pre_exponential_factor, "b": a.temperature_exponent, "Ea": a.activation_energy} for p, a in r.rates]
        rec.check("plog-n", len(back) == len(d["rate-constants"]))
        rec.close("plog-back", mechref.plog_k(back, T, c["P"]), want, 1e-10)
    elif t == "chebyshev":
        r = (ct.ChebyshevRate(d["temperature-range"], d["pressure-range"], d["data"]) if ctor else ct.ReactionRate.from_dict(d))
        want = mechref.cheb_k(d, T, c["P"]); got = r(T, c["P"])
        rec.close("cheb-data", r.data, d["data"], 1e-13)
        rec.close("cheb-T", r.temperature_range, d["temperature-range"], 1e-13); rec.close("cheb-P", r.pressure_range, d["pressure-range"], 1e-13)
    elif t == "Blowers-Masel":
        k = d["rate-constant"]
        r = ct.BlowersMaselRate(k["A"], k["b"], k["Ea0"], k["w"]) if ctor else ct.ReactionRate.from_dict(d)
        want = mechref.bm_k(k, T, c["dH"])
        r.delta_enthalpy = c["dH"]
        E = r.activation_energy
        got = k["A"] * T**k["b"] * math.exp(-E / (R * T))
        rec.close("E0-w", [r.bond_energy], [k["w"]], 1e-12)
    else:
        k = d["rate-constant"]
        r = (ct.TwoTempPlasmaRate(k["A"], k["b"], k["Ea-gas"], k["Ea-electron"]) if ctor else ct.ReactionRate.from_dict(d))
        Te = c["Te"]
        want = k["A"] * Te**k["b"] * math.exp(-k["Ea-gas"] / (R * T) + k["Ea-electron"] * (Te - T) / (R * T * Te))
        got = r(T, Te)
        rec.close("E-el", [r.activation_energy, r.activation_electron_energy], [k["Ea-gas"], k["Ea-electron"]], 1e-12)
    if 1e-250 < abs(want) < 1e250:
        rec.close("value:" + t, got, want, 1e-9, 0, str(d)[:500])
    # writing the rate out and reading it back changes nothing
    r2 = ct.ReactionRate.from_dict({**{k: v for k, v in d.items() if k == "equation"}, **r.input_data})
    rec.check("type", type(r2) is type(r), f"{type(r)} {type(r2)}")
    if t != "Blowers-Masel":
        a = (T, c["x"]) if t == "falloff" else (T, c["P"]) if t in ("plog", "chebyshev") else (T, c["Te"]) if t == "two-temp" else (T,)
        rec.close("written:" + t, r2(*a), r(*a), 1e-9, 1e-300)
    rec.hit(t)

LIBM = [("gri30.yaml", ""), ("h2o2.yaml", ""), ("nDodecane_Reitz.yaml", "nDodecane_IG"), ("data/pdep-test.yaml", ""), ("data/sri-falloff.yaml", ""),
        ("data/tsang-falloff.yaml", ""), ("data/blowers-masel.yaml", "gas"), ("data/linearBurke-test.yaml", ""), ("ohn.yaml", ""),
        ("data/chemically-activated-reaction.yaml", ""), ("data/kineticsfromscratch.yaml", "ohmech"), ("h2o2.yaml", "ohmech"),
        ("data/undeclared-third-body.yaml", ""), ("data/reaction-orders.yaml", "")]

@st.composite
def lib_case(draw):
    return {"f": draw(st.integers(0, len(LIBM) - 1)), "T": draw(uni(300, 2900)), "P": draw(logu(1e3, 1e7)), "X": draw(fractions(8)),
            "k": draw(st.integers(0, 50)), "full": draw(st.booleans())}

_lib = {}
def libgas(f, ph):
    import os
    key = (f, ph)
    if key not in _lib:
        p = os.path.join(os.environ["VERIF_DIR"], f) if f.startswith("data/") else f
        g = ct.Solution(p, ph) if ph else ct.Solution(p)
        rx = [g.reaction(i).input_data for i in range(g.n_reactions)]
        _lib[key] = (g, rx)
    return _lib[key]

@sub("P08", "library", lib_case, quick=1500, thorough=20000, shards=1, tshards=8, floor=0.9,
     rule="shipped and test mechanisms against the entries they report")
def library(c, rec):
    f, ph = LIBM[c["f"] % len(LIBM)]
    try:
        g, rx = libgas(f, ph)
    except Exception as e:
        if "No such file" in str(e) or "not found" in str(e):
            rec.skip("missing " + f)
        raise
    x = np.zeros(g.n_species)
    if c["full"]:
        x += 1e-6
    for i, v in enumerate(c["X"]):
        x[(i * 11 + c["k"]) % g.n_species] += v
    g.TPX = c["T"], c["P"], x
    keep = [i for i, d in enumerate(rx) if d.get("type") in (None, "elementary", "three-body", "falloff", "chemically-activated",
                                                                "pressure-dependent-Arrhenius", "Chebyshev", "Blowers-Masel", "linear-Burke")]
    rxk = [rx[i] for i in keep]
    ref = mechref.Bulk(g.species_names, rxk)
    RT = R * g.T
    c0 = np.full(g.n_species, g.P / RT)
    o = ref.eval(g.T, g.P, g.X, g.concentrations, g.partial_molar_enthalpies, g.standard_gibbs_RT * RT, c0)
    cmp(rec, "kf", g.forward_rate_constants[keep], o["kf"], 1e-8, 0, rxk)
    cmp(rec, "Kc", g.equilibrium_constants[keep], o["Kc"], 1e-8, 0, rxk)
    cmp(rec, "ropf", g.forward_rates_of_progress[keep], o["ropf"], 1e-8, 1e-300, rxk)
    cmp(rec, "ropr", g.reverse_rates_of_progress[keep], o["ropr"], 1e-7, 1e-300, rxk)
    if len(keep) == len(rx):
        rates(rec, g, ref, rx)
    rec.hit(f)
