"""P10: derivatives of reaction rates are the derivatives of those rates.
Oracle: finite differences of the rates themselves along paths on which the chain rule gives
the same sum of the reported partial derivatives (isobaric and isochoric temperature changes,
isothermal pressure changes, single concentrations), analytic mass-action derivatives, and the
stoichiometric sums relating species to reactions.  Non-trivial: a rate that depends on the
variable."""
import json
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen
from gen import uni, logu, fractions
R = ct.gas_constant
TYPES = [t for t in mechgen.TYPES if t != "linear-Burke"]
PDEP = ("pressure-dependent-Arrhenius", "Chebyshev", "linear-Burke")

@st.composite
def gas_case(draw):
    m = draw(mechgen.gas_mech(1, 8, types=TYPES, with_transport=None))
    return {"y": m["yaml"], "T": 1.00037 * draw(uni(500, 2500)), "P": 1.0137 * draw(logu(1e3, 1e7)), "X": draw(fractions(m["n"])), "skip": draw(st.sampled_from([{}, {}, {}, {"skip-third-bodies": True}, {"skip-falloff": True}])),
            "delta": draw(st.sampled_from([1e-8, 1e-8, 1e-7])), "k": draw(st.integers(0, 20)), "before": draw(st.sampled_from(["", "", "read", "ddX"]))}

def load(rec, y):
    try:
        g = ct.Solution(yaml=json.dumps(y))
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    if not g.n_reactions:
        rec.skip("no reactions")
    return g

def smooth(vals, scale):
    """Derivative from central differences at two steps; nan where they disagree."""
    (fp, fm, h), (fp2, fm2, h2) = vals
    a = (fp - fm) / (2 * h); b = (fp2 - fm2) / (2 * h2)
    bad = np.abs(a - b) > 3e-5 * np.maximum(np.abs(a), np.abs(b)) + 1e-6 * scale
    return np.where(bad, np.nan, (4 * b - a) / 3)

def fd(f, x, h):
    v = []
    for s in (h, h / 2):
        v.append((f(x + s), f(x - s), s))
    return v

def agree(rec, sig, got, want, scale, msg="", tol=1e-4):
    ok = np.isfinite(want)
    got, want, scale = np.asarray(got)[ok], np.asarray(want)[ok], np.asarray(scale)[ok]
    rec.close(sig, got, want, tol, 3e-6 * scale, msg)
    return ok.any()

@sub("P10", "gas rates", gas_case, quick=900, thorough=30000, shards=3, tshards=8, floor=0.7,
     rule="temperature, pressure, concentration and composition derivatives of rate constants and rates of progress of every bulk rate type")
def gas(c, rec):
    g = load(rec, c["y"])
    T, P = c["T"], c["P"]
    X = np.array(c["X"]); X = X / X.sum()
    def put(T, P, X=X):
        g.TP = T, P
        if (X < 0).any() or abs(X.sum() - 1) > 1e-15:
            g.set_unnormalized_mole_fractions(X)
            g.TP = T, P
        else:
            g.TPX = T, P, X
    g.derivative_settings = dict(c["skip"], **{"rtol-delta": c["delta"]})
    s = g.derivative_settings
    rec.check("settings", s["rtol-delta"] == c["delta"] and s["skip-third-bodies"] == c["skip"].get("skip-third-bodies", False) and s["skip-falloff"] == c["skip"].get("skip-falloff", False), f"{s}")
    g.TPX = T, P, X
    if c["before"] == "read":
        g.net_production_rates
    elif c["before"] == "ddX":
        g.net_rates_of_progress_ddX
    C = g.density_mole
    conc = g.concentrations
    tb = g.third_body_concentrations
    tb = tb[np.isfinite(tb)]
    if len(tb) and tb.min() < 1e-5 * C:
        rec.skip("third-body concentration lost in rounding")
    kinds = [("forward_rate_constants", "kf"), ("forward_rates_of_progress", "rf"), ("reverse_rates_of_progress", "rr"), ("net_rates_of_progress", "rn")]
    types = [r.reaction_type for r in g.reactions()]
    fall = np.array([isinstance(r.rate, ct.FalloffRate) for r in g.reactions()])
    third = np.array([r.third_body is not None for r in g.reactions()])
    pdep = np.array([r.rate.type in PDEP for r in g.reactions()])
    val = {}
    for n, t in kinds:
        for d in ("ddT", "ddP", "ddC"):
            val[t, d] = np.array(getattr(g, f"{n}_{d}"))
        if t != "kf":
            for d in ("ddX", "ddCi"):
                val[t, d] = np.array(getattr(g, f"{n}_{d}"))
            rec.close(f"{t}:ddX=C*ddCi", val[t, "ddX"], val[t, "ddCi"] * C, 1e-11, 1e-250)
    v = {t: np.array(getattr(g, n)) for n, t in kinds}
    # internal finite differences (temperature, pressure, falloff) leave some noise
    noisy = bool(fall.any())
    nr, npd = np.array(g.reactant_stoich_coeffs), np.array(g.product_stoich_coeffs)
    for d in ("ddT", "ddP", "ddC", "ddX", "ddCi"):
        F, B = val["rf", d], val["rr", d]
        m = np.abs(F) + np.abs(B)
        if d in ("ddT", "ddP") or noisy:
            x = {"ddT": T, "ddP": P, "ddX": 1.0}.get(d, C)
            z = (v["rf"] + v["rr"]) / x
            noise = 3e-6 * (m + (z[:, None] if m.ndim == 2 else z))
        else:
            noise = 1e-11 * m
        rec.close(f"net=fwd-rev:{d}", val["rn", d], F - B, 1e-10, noise + 1e-250)
        a = npd @ F + nr @ B; b = nr @ F + npd @ B
        z = (npd + nr) @ noise + 1e-250
        rec.close(f"creation_rates_{d}", getattr(g, f"creation_rates_{d}"), a, 1e-9, z)
        rec.close(f"destruction_rates_{d}", getattr(g, f"destruction_rates_{d}"), b, 1e-9, z)
        rec.close(f"net_production_rates_{d}", getattr(g, f"net_production_rates_{d}"), a - b, 1e-9, 2 * z)
    # pressure enters only pressure-dependent rates
    for t in ("kf", "rf", "rr", "rn"):
        rec.check(f"{t}:ddP zero", not val[t, "ddP"][~pdep].any(), f"{val[t, 'ddP']} {types}")
    rec.check("state kept", g.T == T and abs(g.P / P - 1) < 1e-12, f"{g.T} {g.P}")
    # paths
    q = {n: None for n, t in kinds}
    def at(T, P, X=X):
        put(T, P, X)
        return np.array([getattr(g, n) for n, t in kinds])
    base = at(T, P)
    skip = bool(c["skip"].get("skip-third-bodies")); skf = bool(c["skip"].get("skip-falloff"))
    incl = np.ones(g.n_reactions, bool)          # reactions for which all dependences are included
    bm = np.array([r.rate.type == "Blowers-Masel" for r in g.reactions()])   # d/dT leaves out the change of the barrier
    if skip:
        incl &= ~third
    if skf:
        incl &= ~fall
    mag = np.abs(base)
    mag[3] = mag[1] + mag[2]
    Tiso = smooth(fd(lambda t: at(t, P), T, 1e-3), mag / T)
    Tisc = smooth(fd(lambda t: at(t, P * t / T), T, 1e-3), mag / T)
    Pist = smooth(fd(lambda p: at(T, p), P, 1e-4 * P), mag / P)
    tol = 2e-4 if c["delta"] == 1e-8 else 1e-3
    hit = False
    for j, (n, t) in enumerate(kinds):
        dT, dP, dC = val[t, "ddT"], val[t, "ddP"], val[t, "ddC"]
        S = mag[j][incl]; it = incl & ~bm; U = mag[j][it]
        hit |= agree(rec, f"{t}:isobaric", (dT - C / T * dC)[it], Tiso[j][it], U / T, f"{types}", tol)
        agree(rec, f"{t}:isochoric", (dT + P / T * dP)[it], Tisc[j][it], U / T, f"{types}", tol)
        agree(rec, f"{t}:isothermal", (dP + C / P * dC)[incl], Pist[j][incl], S / P, f"{types}", tol)
    # one concentration at a time, temperature fixed
    k = c["k"] % g.n_species
    def cat(x):
        cc = conc.copy(); cc[k] = x
        g.TP = T, None
        put(T, cc.sum() * R * T, cc / cc.sum())
        return np.array([getattr(g, n) for n, t in kinds])
    h = 1e-4 * max(conc[k], 1e-3 * C)
    if conc[k] > h:
        D = smooth(fd(cat, conc[k], h), mag / max(conc[k], 1e-3 * C))
        for j, (n, t) in enumerate(kinds):
            if t == "kf":
                continue
            agree(rec, f"{t}:concentration", (val[t, "ddCi"][:, k] + val[t, "ddP"] * R * T)[incl], D[j][incl], mag[j][incl] / max(conc[k], 1e-3 * C), f"{types} {g.species_name(k)}", tol)
            rec.label("concentration")
    # mass action alone
    g.TPX = T, P, X
    g.derivative_settings = {"skip-third-bodies": True, "skip-falloff": True, "rtol-delta": c["delta"]}
    a = np.array(g.forward_rates_of_progress_ddCi)
    b = np.array(g.reverse_rates_of_progress_ddCi)
    for i, r in enumerate(g.reactions()):
        o = dict(r.reactants); o.update(r.orders)
        for kk, nm in enumerate(g.species_names):
            if conc[kk] > 1e-6 * C:
                rec.close("mass action forward", a[i, kk], o.get(nm, 0) * v["rf"][i] / conc[kk], 1e-7, 1e-250, f"{r.equation} {nm}")
                rec.close("mass action reverse", b[i, kk], r.products.get(nm, 0) * v["rr"][i] / conc[kk], 1e-7, 1e-250, f"{r.equation} {nm}")
            elif nm not in o:
                rec.check("mass action zero", a[i, kk] == 0, f"{r.equation} {nm}")
    if hit:
        rec.hit("/".join(sorted(set(t.split("-")[0] for t in types)))[:60])

@st.composite
def surf_case(draw):
    m = draw(mechgen.surf_mech(kinds=("surface",), orders=True))
    y = m["yaml"]
    return {"m": m, "T": draw(uni(400, 1500)), "P": draw(logu(1e3, 1e6)), "Xg": draw(fractions(m["ng"], zeros=False)), "cov": draw(fractions(m["ns"], zeros=False)), "k": draw(st.integers(0, 20)), "skip": draw(st.booleans())}

@sub("P10", "surface rates", surf_case, quick=500, thorough=15000, shards=1, tshards=8, floor=0.5,
     rule="concentration derivatives of surface rates of progress (no coverage dependence) in the gas and on the surface")
def surf(c, rec):
    y = c["m"]["yaml"]
    try:
        s = ct.Interface(yaml=json.dumps(y), name="surf")
    except ct.CanteraError as e:
        rec.skip("not accepted: " + str(e)[:40])
    g = s.adjacent["gas"]
    T, P = c["T"], c["P"]
    g.TPX = T, P, c["Xg"]; s.TP = T, P; s.coverages = c["cov"]
    cov = any(r.rate.coverage_dependencies for r in s.reactions())
    stick = any(r.rate.type.startswith("sticking") for r in s.reactions())
    if cov:
        try:
            s.net_rates_of_progress_ddCi
            rec.fail("coverage dependence accepted", f"{[(r.equation, r.rate.coverage_dependencies, r.rate.type) for r in s.reactions()]} derivatives were given for coverage-dependent rates without the setting that ignores it")
        except NotImplementedError:
            pass
    s.derivative_settings = {"skip-coverage-dependence": True}
    D = {m: np.array(getattr(s, f"{m}_rates_of_progress_ddCi")) for m in ("forward", "reverse", "net")}
    rec.close("net=fwd-rev", D["net"], D["forward"] - D["reverse"], 1e-10, 1e-10 * (np.abs(D["forward"]) + np.abs(D["reverse"])))
    nr, npd = np.array(s.reactant_stoich_coeffs), np.array(s.product_stoich_coeffs)
    m = (npd + nr) @ (np.abs(D["forward"]) + np.abs(D["reverse"]))
    rec.close("creation", s.creation_rates_ddCi, npd @ D["forward"] + nr @ D["reverse"], 1e-9, 1e-11 * m)
    rec.close("destruction", s.destruction_rates_ddCi, nr @ D["forward"] + npd @ D["reverse"], 1e-9, 1e-11 * m)
    rec.close("net", s.net_production_rates_ddCi, (npd - nr) @ D["net"], 1e-9, 1e-11 * m)
    names = list(s.kinetics_species_names)
    conc = np.concatenate([s.concentrations, g.concentrations]) if names[0] in s.species_names else np.concatenate([g.concentrations, s.concentrations])
    rf, rr = np.array(s.forward_rates_of_progress), np.array(s.reverse_rates_of_progress)
    for i, r in enumerate(s.reactions()):
        o = dict(r.reactants); o.update(r.orders)
        for k, nm in enumerate(names):
            if conc[k] > 1e-9 * conc.max():
                rec.close("mass action forward", D["forward"][i, k], o.get(nm, 0) * rf[i] / conc[k], 1e-8, 1e-250, f"{r.equation} {nm}")
                rec.close("mass action reverse", D["reverse"][i, k], r.products.get(nm, 0) * rr[i] / conc[k], 1e-8, 1e-250, f"{r.equation} {nm}")
    # the rates themselves, for one gas species
    if not cov:
        k = c["k"] % g.n_species
        kk = names.index(g.species_names[k])
        c0 = g.concentrations
        out = []
        for h in (1e-4, -1e-4):
            cc = c0.copy(); cc[k] *= 1 + h
            g.TPX = T, cc.sum() * R * T, cc / cc.sum()
            out.append((np.array(s.forward_rates_of_progress), np.array(s.reverse_rates_of_progress)))
        if c0[k] > 1e-12:
            for j, m in enumerate(("forward", "reverse")):
                w = (out[0][j] - out[1][j]) / (2e-4 * c0[k])
                rec.close(f"{m}:concentration", D[m][:, kk], w, 1e-4, 1e-6 * (rf, rr)[j] / c0[k], g.species_name(k))
        rec.hit("finite difference" + (" sticking" if stick else ""))
    else:
        rec.hit("coverage")
