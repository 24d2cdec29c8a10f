"""P16: reactor networks follow the documented governing equations and conserve.
rhs: the right-hand sides that the reactors hand to the integrator, at the initial state
and at states met while integrating, against an independent evaluation of the documented
equations for every reactor type, wall, flow device and surface of a generated network."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen, reactors
from gen import uni, logu, fractions

@st.composite
def rhs_case(draw):
    c = draw(reactors.network())
    c["pick"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=3))
    c["dt"] = draw(logu(1e-9, 1e-2))
    return c

class Watch:
    def __init__(self, n, pick):
        self.y = {}; self.n = n; self.pick = set(pick) | {0}; self.count = -1; self.seen = set(); self.out = []
    def state(self, i, y):
        self.y[i] = y
        self.seen = set()
    def eval(self, i, t, L, R):
        if not self.seen:
            self.count += 1
        self.seen.add(i)
        if self.count in self.pick and len(self.y) == self.n:
            self.out.append((self.count, i, t, {k: v for k, v in self.y.items()}, L, R))

@sub("P16", "rhs", rhs_case, quick=2400, thorough=60000, shards=4, tshards=8, floor=0.6,
     rule="networks of 1-3 reactors of the 8 types with walls, flow devices, reservoirs and surfaces; the derivative of every state component is compared")
def rhs(c, rec):
    try:
        n = reactors.Net(c, rec, ext=True)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    w = Watch(len(c["R"]), c["pick"])
    for o in n.obj[:len(c["R"])]:
        o._watch = w
    n.net.rtol = 1e-6
    n.net.max_time_step = c["dt"]
    try:
        n.net.initialize()
        for _ in range(10):
            if w.count > max(c["pick"]):
                break
            n.net.step()
    except ct.CanteraError as e:
        rec.label("integration stopped")
    if not w.out:
        rec.skip("no evaluation")
    M = reactors.Model(c)
    done = 0
    for cnt, i, t, ys, L, R in w.out:
        try:
            ok = all(M.set(k, y) for k, y in ys.items())
        except ct.CanteraError:
            ok = False
        if not ok:
            rec.label("unphysical trial state"); continue
        kind = c["R"][i]["kind"]
        want, mag = M.ydot(i, t)
        got = R / L
        ok = np.isfinite(want) & np.isfinite(mag)
        if not ok.all():
            rec.label("overflow"); continue
        K = M.g[i].n_species
        names = [n.obj[i].component_name(k) for k in range(len(got))]
        tol = 3e-6 if kind.startswith("ConstP") else 1e-7     # temperatures found by setState_HP are reached to 1e-9
        floor = 1e-18 * max(mag[-K:].max(), mag[:K].max()) + 1e-30
        for k in range(len(want)):
            what = names[k] if k < len(want) - K and names[k] in ("mass", "volume", "int_energy", "enthalpy", "temperature") else "species"
            if c["R"][i]["surfs"] and k >= len(want) - sum(f.n_species for f in M.f[i]):
                what = "surface"
            rec.close(f"{kind}:{what}", got[k], want[k], 0, tol * mag[k] + floor, f"{names[k]} of reactor {i} at eval {cnt}, t={t!r}")
        done += 1
        if (mag > 0).any():
            rec.hit(kind)
    for k in ("walls", "flows"):
        if c[k]:
            rec.label(k)

# ------------------------------------------------------------------ integrated balances
H2O2 = json.dumps(None)
def lib_mech(name, n):
    return st.just({"yaml": name, "n": n})

@st.composite
def integ_case(draw):
    kind = draw(st.sampled_from(["h2o2", "h2o2", "surf"]))
    if kind == "surf":
        c = draw(reactors.network(nmax=2, surfaces=True, reservoirs=False, areas=logu(1e-3, 1), Tlo=500, Thi=1200).filter(lambda c: c["surf"]))
    else:
        c = draw(reactors.network(nmax=3, mech=lib_mech("h2o2.yaml", 10), reservoirs=True, Tlo=300, Thi=1800))
        for r in c["R"] + c["res"]:
            X = r["s"]["X"]     # the last species are HO2, H2O2, AR, N2: keep radicals minor
            r["s"]["X"] = [x * (1.0 if i in (0, 3, 5, 8, 9) else 1e-3) + (0.01 if i == 9 else 0) for i, x in enumerate(X)]
    for r in c["R"]:
        r["energy"] = draw(st.sampled_from([True, True, True, False]))
    nr = len(c["R"])
    # fluxes exchanged with reservoirs must have a closed-form integral
    c["walls"] = [w for w in c["walls"] if max(w["l"], w["r"]) < nr or True]
    for w in c["walls"]:
        if max(w["l"], w["r"]) >= nr:
            w.update(K=0.0, U=0.0, e=0.0)
    fl = []
    for f in c["flows"]:
        if f["u"] >= nr or f["d"] >= nr:
            if f["kind"] != "mfc" or f["d"] >= nr:
                continue
            if f["t"]:
                f["t"] = ["const" if f["t"][0] in ("const", "sin") else f["t"][0], abs(f["t"][1]), abs(f["t"][2]), f["t"][3]]
        if f["kind"] == "pc":
            continue
        f["c"] *= 1e-2
        fl.append(f)
    c["flows"] = fl
    c["times"] = sorted(set(draw(st.lists(logu(1e-7, 1.0), min_size=1, max_size=4))))
    c["mode"] = draw(st.sampled_from(["advance", "advance", "step"]))
    return c

def integral(spec, t):
    k, a, b, w = spec
    if k == "const":
        return a * t
    if k == "sin":
        return a * t + b * (1 - math.cos(w * t)) / w
    if k == "exp":
        return a * t + b * (1 - math.exp(-w * t)) / w
    return a * t + b * w * t * t / 2

def totals(c, n, surf=True):
    """Element masses (gas and surfaces), volume and energy of the reactors."""
    el = {}; V = 0.0; E = 0.0; Em = 0.0; tm = 0.0
    for i, r in enumerate(c["R"]):
        o, g = n.obj[i], n.gases[i]
        th = o.thermo
        m = o.mass; tm += m
        for e in th.element_names:
            el[e] = el.get(e, 0.0) + m * th.elemental_mass_fraction(e)
        for (f, rs), s in zip(n.ifaces[i], r["surfs"]):
            cov = rs.coverages; z = reactors.f_sizes(f)
            for k in range(f.n_species):
                for e in f.element_names:
                    el[e] = el.get(e, 0.0) + s["A"] * f.site_density * cov[k] / z[k] * f.n_atoms(k, e) * f.atomic_weight(e)
        V += o.volume
        cp = "ConstPressure" in r["kind"]
        E += m * (th.enthalpy_mass if cp else th.int_energy_mass)
        Em += m * (abs(th.enthalpy_mass) + th.cp_mass * th.T)
    return el, V, E, Em, tm

@sub("P16", "integrate", integ_case, quick=800, thorough=12000, shards=4, tshards=8, floor=0.5,
     rule="integrating a network (h2o2 or surface mechanism) and checking element mass, total mass, energy and volume balances at each output time")
def integrate(c, rec):
    try:
        n = reactors.Net(c, rec)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    net = n.net; net.rtol = 1e-9; net.atol = 1e-20; net.max_steps = 20000
    nr = len(c["R"]); R = c["R"]
    el0, V0, E0, Em0, m0 = totals(c, n)
    u0 = []
    for i, r in enumerate(R):
        th = n.gases[i]
        u0.append((th.enthalpy_mass, th.int_energy_mass, th.P, th.T, n.obj[i].mass))
    touched = set()
    for w in c["walls"]:
        touched |= {w["l"], w["r"]}
    for f in c["flows"]:
        touched |= {f["u"], f["d"]}
    cpk = ["ConstPressure" in r["kind"] for r in R]
    moving = [w for w in c["walls"] if w["K"] or w["v"]]
    energy_ok = all(r["energy"] for r in R) and all(
        all(i >= nr or cpk[i] for i in (w["l"], w["r"])) for w in moving)
    vol_ok = not any(cpk)
    res_h = {i: (n.gases[i].enthalpy_mass, {e: n.gases[i].elemental_mass_fraction(e) for e in n.gases[i].element_names}) for i in range(nr, nr + len(c["res"]))}
    tprev = 0.0
    for t in c["times"]:
        try:
            if c["mode"] == "advance":
                net.advance(t)
            else:
                k = 0
                while net.time < t and k < 3000:
                    net.step(); k += 1
                t = net.time
        except ct.CanteraError as e:
            rec.label("integration failed"); return
        rec.close("time", net.time, t, 0, 0, "net.time")
        rec.check("monotonic", t >= tprev); tprev = t
        el, V, E, Em, m = totals(c, n)
        inm = 0.0; ine = 0.0; iel = {e: 0.0 for e in el}; dV = 0.0
        for f in c["flows"]:
            if f["u"] >= nr:
                q = f["c"] * (integral(f["t"], t) if f["t"] else t)
                h, fr = res_h[f["u"]]
                inm += q; ine += q * h
                for e, v in fr.items():
                    iel[e] = iel.get(e, 0.0) + q * v
        for w in c["walls"]:
            if max(w["l"], w["r"]) >= nr:
                s = -1 if w["l"] < nr else 1
                if w["Q"]:
                    ine += s * w["A"] * integral(w["Q"], t)
                if w["v"]:
                    dV -= s * w["A"] * integral(w["v"], t)
        scale = m0 + inm
        for e in el:
            rec.close("elements", el[e], el0[e] + iel[e], 0, (2e-5 if c["surf"] else 2e-6) * scale, f"mass of {e} at t={t}")
        if not c["surf"]:
            rec.close("mass", m, m0 + inm, 0, 2e-6 * scale, f"t={t}")
        if energy_ok:
            rec.close("energy", E, E0 + ine, 0, 2e-6 * (Em + Em0 + abs(ine)), f"t={t}")
        if vol_ok:
            rec.close("volume", V, V0 + dV, 0, 1e-6 * (V + V0), f"t={t}")
        for i, r in enumerate(R):
            th = n.obj[i].thermo; o = n.obj[i]
            rec.close("Y sums", th.Y.sum(), 1.0, 0, 1e-9)
            rec.close("mass=rho V", o.mass, th.density * o.volume, 1e-9)
            rec.close("T", o.T, th.T, 1e-12)
            if cpk[i]:
                rec.close("P const", th.P, u0[i][2], 1e-9, 0, f"reactor {i} t={t}")
            if not r["energy"] and not cpk[i] or not r["energy"]:
                rec.close("T const", th.T, u0[i][3], 1e-9, 0, f"energy off, reactor {i}")
            if i not in touched and r["energy"] and not n.ifaces[i]:
                h0, e0 = u0[i][0], u0[i][1]
                a = th.enthalpy_mass if cpk[i] else th.int_energy_mass
                rec.close("adiabatic", a, h0 if cpk[i] else e0, 0, 2e-6 * (abs(a) + th.cp_mass * th.T), f"reactor {i}")
            for (f, rs) in n.ifaces[i]:
                rec.close("coverages sum", rs.coverages.sum(), 1.0, 0, 1e-3, "")
        for W, w in zip(n.walls, c["walls"]):
            a, b = n.obj[w["l"]].thermo, n.obj[w["r"]].thermo
            v = w["K"] * w["A"] * (a.P - b.P) + (w["A"] * reactors.fval(w["v"], t) if w["v"] else 0)
            rec.close("expansion_rate", W.expansion_rate, v, 1e-7, 1e-7 * w["K"] * w["A"] * (a.P + b.P) + 1e-13, f"wall t={t}")
            q = w["A"] * w["U"] * (a.T - b.T) + w["e"] * w["A"] * reactors.SIGMA * (a.T**4 - b.T**4) + (w["A"] * reactors.fval(w["Q"], t) if w["Q"] else 0)
            rec.close("heat_rate", W.heat_rate, q, 1e-7, 1e-7 * w["A"] * (w["U"] * (a.T + b.T) + w["e"] * 6e-8 * (a.T**4 + b.T**4)) + 1e-9, f"wall t={t}")
        rec.hit(c["mode"])

# ------------------------------------------------------------------ plug flow
@st.composite
def flow_case(draw):
    lib = draw(st.sampled_from([None, None, "methane_pox_on_pt.yaml", "diamond.yaml"]))
    if lib:
        m = {"yaml": lib}; surf = True
        X = draw(fractions(6)); T = draw(uni(700, 1500))
    elif draw(st.booleans()):
        m = draw(mechgen.surf_mech(kinds=("surface",), gas_reactions=draw(st.booleans()), nmin=2, nmax=5, orders=False)); m = {"yaml": m["yaml"], "n": m["ng"]}
        surf = True; X = draw(fractions(m["n"])); T = draw(uni(500, 1200))
    else:
        surf = False
        m = {"yaml": "h2o2.yaml", "n": 10}
        X = draw(fractions(10)); X = [x * (1.0 if i in (0, 3, 5, 8, 9) else 1e-3) for i, x in enumerate(X)]
        X[9] += 0.01
        T = draw(uni(800, 1800))
    return {"m": m["yaml"], "surf": surf, "X": X, "T": T, "P": draw(logu(1e4, 1e6)), "area": draw(logu(1e-5, 1e-1)),
            "u": draw(logu(1e-3, 10)), "L": draw(logu(1e-5, 1e-1)), "energy": draw(st.sampled_from([True, True, False])),
            "sv": draw(st.one_of(st.none(), logu(1, 1e4)))}

@sub("P16", "plug-flow", flow_case, quick=500, thorough=8000, shards=2, tshards=8, floor=0.4,
     rule="FlowReactor over a generated length: mass, momentum, enthalpy, elements, site balance, and the documented equations for the derivatives")
def plug_flow(c, rec):
    bulk = False
    if isinstance(c["m"], str) and c["surf"]:
        if "pox" in c["m"]:
            s = ct.Interface(c["m"], "Pt_surf"); g = s.adjacent["gas"]
            sp = ["CH4", "O2", "AR", "H2", "H2O", "CO2"]
        else:
            s = ct.Interface(c["m"], "diamond_100"); g = s.adjacent["gas"]; bulk = True
            sp = ["H2", "H", "CH3", "CH4", "H2", "H2"]
        X = {}
        for a, b in zip(sp, c["X"]):
            X[a] = X.get(a, 0) + b * (1e-2 if a in ("H", "CH3") else 1) + (0.01 if a in ("AR", "H2") else 0)
        g.TPX = c["T"], c["P"], X
        s.TP = c["T"], c["P"]
    elif c["surf"]:
        src = json.dumps(c["m"])
        g = ct.Solution(yaml=src, name="gas")
        g.TPX = c["T"], c["P"], c["X"]
        try:
            s = ct.Interface(yaml=src, name="surf", adjacent=[g])
        except ct.CanteraError as e:
            if "Undeclared duplicate" in str(e):
                rec.skip("generated the same reaction twice")
            raise
        s.TP = c["T"], c["P"]
    else:
        g = ct.Solution(c["m"]); g.TPX = c["T"], c["P"], c["X"]; s = None
    r = ct.FlowReactor(g, energy="on" if c["energy"] else "off")
    r.area = c["area"]
    rho0, A = g.density, c["area"]
    r.mass_flow_rate = rho0 * c["u"] * A
    rec.close("speed", r.speed, c["u"], 1e-12)
    if c["sv"]:
        r.surface_area_to_volume_ratio = c["sv"]
    sv = r.surface_area_to_volume_ratio
    rec.close("sa_to_vol", sv, c["sv"] if c["sv"] else 2 / math.sqrt(A / math.pi), 1e-12)
    if s:
        rs = ct.ReactorSurface(s, r)
    net = ct.ReactorNet([r]); net.rtol = 1e-7; net.atol = 1e-14; net.max_steps = 20000
    K = g.n_species
    h0, P0, el0 = g.enthalpy_mass, g.P, {e: g.elemental_mass_fraction(e) for e in g.element_names}
    m0 = rho0 * c["u"]
    try:
        net.initialize()
        y0 = np.array([rho0, c["u"], P0, g.T] + list(g.Y))
        net.advance(c["L"])
        y = np.array([r.thermo.density, r.speed, r.thermo.P, r.thermo.T] + list(r.thermo.Y))
        yd = net.get_derivative(1)
    except ct.CanteraError as e:
        rec.skip("integration failed")
    th = r.thermo
    if not (th.T < 5000 and th.T > 200):
        rec.skip("left the temperature range")
    rec.close("distance", net.distance, c["L"], 1e-12)
    rho, u, P, T = y[:4]; Y = y[4:4 + K]
    rec.close("state", [rho, P, T], [th.density, th.P, th.T], 1e-6, 0, "density, pressure, temperature")
    mf = rho * u
    if bulk:
        tol = 1e-3       # solid is deposited: the gas loses mass; only the equations below apply
    else:
      rec.close("mass flux", mf, m0, 2e-5, 0, "rho u")
    rec.close("momentum", P + mf * u, P0 + m0 * c["u"], 2e-5, 0, "P + rho u^2")
    if c["energy"] and not bulk:
        rec.close("enthalpy", th.enthalpy_mass, h0, 0, 2e-5 * (abs(h0) + th.cp_mass * th.T), "h")
    elif not c["energy"]:
        rec.close("isothermal", T, c["T"], 1e-9)
    for e, v in el0.items() if not bulk else ():
        rec.close("elements", th.elemental_mass_fraction(e), v, 0, 2e-5, e)
    # documented equations for the derivatives at the end point
    W = th.molecular_weights
    w = th.net_production_rates if th.n_reactions else np.zeros(K)
    gr = reactors.gross(th) if th.n_reactions else np.zeros(K)
    sd = np.zeros(K); sg = np.zeros(K)
    if s:
        cov = rs.coverages
        rec.close("sites", cov.sum(), 1.0, 0, 1e-6, "coverages")
        s.set_unnormalized_coverages(cov); s.TP = T, P
        gi = s.kinetics_species_index(g.species_names[0]); si = s.kinetics_species_index(s.species_names[0])
        a = s.net_production_rates; b = reactors.gross(s)
        sd, sg = a[gi:gi + K], b[gi:gi + K]
        ss, sm = a[si:si + s.n_species], b[si:si + s.n_species]
        rec.close("steady surface", ss, np.zeros(len(ss)), 0, 1e-3 * sm.max() + 1e-20, "surface production rates")
    tot = sv * (sd @ W); tg = sv * (sg @ W)
    dY = (W * (w + sv * sd) - Y * tot) / mf
    dg = (W * (gr + sv * sg) + Y * tg) / mf
    rec.close("species equation", yd[4:4 + K], dY, 2e-3, 2e-3 * np.abs(dY).max() + 1e-4 * dg.max() + 1e-3 * np.abs(Y - y0[4:4+K]).max() / c["L"] + 1e-8, "dY/dz")
    if c["energy"]:
        hk = th.partial_molar_enthalpies
        rec.close("momentum equation", rho * u * yd[1] + yd[2], -u * tot, 2e-3, 1e-5 * (rho * u * u) / c["L"] + 1e-6 * P / c["L"] + 1e-6 * u * tg, "")
        rec.close("continuity", u * yd[0] + rho * yd[1], tot, 2e-3, 1e-4 * mf / c["L"] + 1e-6 * tg, "")
        dT = -(hk @ (w + sv * sd)) / (mf * th.cp_mass)
        rec.close("energy equation", yd[3], dT, 2e-3, 1e-4 * (np.abs(hk) @ (gr + sv * sg)) / (mf * th.cp_mass) + 1e-3 * abs(T - c["T"]) / c["L"] + 1e-4, "dT/dz")
    rec.hit("surf" if s else "gas")
    if np.abs(Y - y0[4:4+K]).max() > 1e-3:
        rec.label("reacted")
