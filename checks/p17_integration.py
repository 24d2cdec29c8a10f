"""P17: the solution of a reactor network does not depend on how it is computed.
One network is integrated along two routes that must give the same answer: other output
times, single steps, a reinitialization or a saved state in between, advance limits, other
solvers, another order or formulation of the reactors.  The tolerance of the comparison
comes from a third run at a looser integrator tolerance.  Non-trivial: the state changed."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen, reactors
from gen import uni, logu, fractions
from p16_reactors import lib_mech

@st.composite
def base(draw, nmax=2, kinds=reactors.KINDS, connectors=True, surfaces=True, real=False):
    kind = draw(st.sampled_from(["h2o2", "h2o2", "surf" if surfaces else "h2o2"]))
    if kind == "surf":
        c = draw(reactors.network(nmax=nmax, surfaces=True, kinds=kinds, areas=logu(1e-3, 1), Tlo=500, Thi=1200, connectors=connectors).filter(lambda c: c["surf"]))
    else:
        c = draw(reactors.network(nmax=nmax, mech=lib_mech("h2o2.yaml", 10), kinds=kinds, Tlo=600, Thi=1600, connectors=connectors))
        for r in c["R"] + c["res"]:
            X = r["s"]["X"]
            r["s"]["X"] = [x * (1.0 if i in (0, 3, 5, 8, 9) else 1e-3) + (0.01 if i == 9 else 0) for i, x in enumerate(X)]
    for w in c["walls"]:
        w["K"] = min(w["K"], 1e-6); w["A"] = min(w["A"], 0.1)
        w["v"] = None if not w["v"] else ["sin", 0.0, w["v"][2] * 0.1, w["v"][3]]
    c["flows"] = [f for f in c["flows"] if f["kind"] != "pc"]
    for f in c["flows"]:
        f["c"] *= 1e-2
    c["t"] = draw(logu(1e-6, 0.3))
    return c

def snap(c, n):
    v, s = [], []
    for i, r in enumerate(c["R"]):
        o = n.obj[i]; th = o.thermo
        v += [th.T, th.P, o.volume, o.mass] + list(th.Y)
        s += [th.T, th.P, o.volume, o.mass] + [1.0] * th.n_species
        for f, rs in n.ifaces[i]:
            v += list(rs.coverages); s += [1.0] * f.n_species
    return np.array(v), np.array(s)

def build(c, rec, **kw):
    try:
        return reactors.Net(c, rec, **kw)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise

def run(c, rec, rtol=1e-9, atol=1e-21, **kw):
    n = build(c, rec, **kw)
    n.net.rtol = rtol; n.net.atol = atol; n.net.max_steps = 20000
    return n

def reference(c, rec, **kw):
    """Solution at c['t'], its uncertainty, and the initial state."""
    out = []
    for rtol, atol in ((1e-9, 1e-21), (1e-7, 1e-19)):
        n = run(c, rec, rtol, atol, **kw)
        s0, _ = snap(c, n)
        try:
            n.net.advance(c["t"])
        except ct.CanteraError:
            rec.skip("integration failed")
        out.append(snap(c, n))
    (a, s), (b, _) = out
    unc = 5 * np.abs(a - b) + 2e-7 * s
    if not (np.abs(a - b) < 1e-2 * s).all():
        rec.skip("solution too sensitive")
    return a, unc, s0, s

def compare(rec, sig, got, ref, unc, extra=1.0):
    rec.close(sig, got, ref, 0, unc * extra, "network state (T, P, V, m, Y, coverages per reactor)")

ROUTES = ["pieces", "steps", "reinit", "limits", "maxstep", "order", "solver", "reverse-names", "interp"]

@st.composite
def route_case(draw):
    c = draw(base())
    c["route"] = draw(st.sampled_from(ROUTES))
    c["fr"] = sorted(draw(st.lists(uni(0.001, 0.999, 999), min_size=1, max_size=4)))
    c["k"] = draw(st.integers(1, 30))
    c["lim"] = draw(logu(1e-3, 1e2))
    return c

@sub("P17", "routes", route_case, quick=700, thorough=16000, shards=4, tshards=8, floor=0.4,
     rule="a network integrated to one time directly and by way of pieces, steps, reinitialization, advance limits, step limits, another reactor order or linear solver")
def routes(c, rec):
    ref, unc, s0, s = reference(c, rec)
    rt = c["route"]
    for rtol, atol in ((1e-9, 1e-21), (1e-11, 1e-23), (1e-12, 1e-25)):
        got = by_route(c, rec, rtol, atol)
        if (np.abs(got - ref) <= unc * (20.0 if rt == "solver" else 4.0)).all():
            break       # a difference must persist at tighter tolerances to count
    compare(rec, "routes:" + rt, got, ref, unc, 20.0 if rt == "solver" else 4.0)
    if (np.abs(ref - s0) > 1e-6 * s).any():
        rec.hit(rt)

def by_route(c, rec, rtol, atol):
    rt = c["route"]; t = c["t"]
    c2 = c
    if rt == "order":
        c2 = dict(c, order=list(reversed(c["order"])))
    n = run(c2, rec, rtol, atol)
    net = n.net
    try:
        if rt == "pieces":
            for f in c["fr"]:
                net.advance(f * t)
        elif rt == "steps":
            last = 0.0
            for _ in range(c["k"]):
                if net.time < t:
                    last = net.step()
            if net.time > t:
                rec.skip("stepped past the end")
        elif rt == "reinit":
            for f in c["fr"]:
                net.advance(f * t)
                net.reinitialize()
        elif rt == "limits":
            net.initialize()
            o = n.obj[c["order"][0]]
            i = 0 if len(c["order"]) == 0 else 0
            name = o.thermo.species_names[0]
            key = {"Mole": None}
            if "Mole" not in o.type:
                o.set_advance_limit(name, 0.02)
            if o.type.startswith("IdealGas"):
                o.set_advance_limit("temperature", c["lim"])
            guard = 0
            prev = o.thermo.T
            while net.time < t and guard < 5000:
                a = net.time
                net.advance(t); guard += 1
                rec.check("progress", net.time > a, f"advance made no progress at {a}")
                if o.type.startswith("IdealGas") and net.time < t:
                    rec.label("limited")
                prev = o.thermo.T
            rec.check("limits end", net.time == t or guard >= 5000, f"{net.time} {t}")
            if net.time != t:
                rec.skip("too many limited steps")
        elif rt == "maxstep":
            net.max_time_step = t / c["k"]
        elif rt == "solver":
            net.linear_solver_type = "GMRES"
        elif rt == "interp":
            # advance to a time, then query an earlier one by building it directly
            net.advance(c["fr"][0] * t)
            y = net.get_state(); y2 = net.get_state()
            rec.check("get_state", (y == y2).all(), "get_state changes")
            rec.close("get_state size", len(y), net.n_vars)
        if net.time < t:
            net.advance(t)
    except ct.CanteraError as e:
        rec.skip("route failed: " + rt)
    rec.close("time", net.time, t, 1e-14)
    return snap(c, n)[0]

CV = ["Reactor", "IdealGasReactor", "MoleReactor", "IdealGasMoleReactor"]
CP = ["ConstPressureReactor", "IdealGasConstPressureReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"]

@st.composite
def form_case(draw):
    c = draw(base())
    c["kinds"] = [draw(st.sampled_from(CP if "ConstPressure" in r["kind"] else CV)) for r in c["R"]]
    c["pre"] = draw(st.booleans())
    return c

@sub("P17", "formulations", form_case, quick=500, thorough=12000, shards=4, tshards=8, floor=0.4,
     rule="the same network with equivalent reactor classes (mass or mole based, general or ideal gas), optionally preconditioned")
def formulations(c, rec):
    ref, unc, s0, s = reference(c, rec)
    pre = c["pre"] and all(k.startswith("IdealGas") and "Mole" in k for k in c["kinds"])
    # a difference must persist at tighter tolerances to count: the error of the first steps
    # is at times larger than estimated
    for rtol, atol in ((1e-9, 1e-21), (1e-11, 1e-23), (1e-12, 1e-25)):
        n = run(c, rec, rtol, atol, kinds=c["kinds"])
        if pre:
            n.net.preconditioner = ct.AdaptivePreconditioner()
            n.net.derivative_settings = {"skip-third-bodies": True, "skip-falloff": True}
        try:
            n.net.advance(c["t"])
        except ct.CanteraError:
            rec.skip("integration failed")
        got, _ = snap(c, n)
        if (np.abs(got - ref) <= unc * (20.0 if pre else 5.0)).all():
            break
    compare(rec, "formulations" + ("-pre" if pre else ""), got, ref, unc, 20.0 if pre else 5.0)
    if (np.abs(ref - s0) > 1e-6 * s).any() and c["kinds"] != [r["kind"] for r in c["R"]]:
        rec.hit("pre" if pre else "plain")

# ------------------------------------------------------------------ histories
@st.composite
def hist_case(draw):
    c = draw(base(nmax=1, connectors=False))
    c["res"], c["walls"], c["flows"] = [], [], []
    c["ops"] = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["advance", "advance", "state", "state", "volume", "energy", "chem", "mult", "step"]))
        a = {"op": k}
        if k == "advance":
            a["t"] = draw(logu(1e-6, 0.1))
        elif k == "state":
            a["s"] = draw(reactors.state(c["n"], Tlo=600, Thi=1500))
            if not c["surf"]:
                a["s"]["X"] = [x * (1.0 if i in (0, 3, 5, 8, 9) else 1e-3) + (0.01 if i == 9 else 0) for i, x in enumerate(a["s"]["X"])]
        elif k == "volume":
            a["V"] = draw(logu(1e-3, 1))
        elif k == "energy":
            a["on"] = draw(st.booleans())
        elif k == "chem":
            a["on"] = draw(st.booleans())
        elif k == "mult":
            a["i"] = draw(st.integers(0, 100)); a["v"] = draw(st.sampled_from([0.0, 0.5, 2.0]))
        elif k == "step":
            a["k"] = draw(st.integers(1, 10))
        c["ops"].append(a)
    c["reset"] = draw(st.booleans())
    return c

@sub("P17", "histories", hist_case, quick=600, thorough=16000, shards=3, tshards=8, floor=0.4,
     rule="a network that was advanced, changed (state, volume, energy, chemistry, multipliers) and reinitialized gives the same continuation as a new network started from there")
def histories(c, rec):
    n = run(c, rec)
    o, g, net = n.obj[0], n.gases[0], n.net
    en, chem = c["R"][0]["energy"], c["R"][0]["chem"]
    mult = {}
    try:
        for a in c["ops"]:
            k = a["op"]
            if k == "advance":
                net.advance(net.time + a["t"])
            elif k == "step":
                for _ in range(a["k"]):
                    net.step()
            elif k == "state":
                g.TPX = a["s"]["T"], a["s"]["P"], a["s"]["X"]
                o.syncState(); net.reinitialize()
            elif k == "volume":
                o.thermo
                o.volume = a["V"]; o.syncState(); net.reinitialize()
            elif k == "energy":
                o.energy_enabled = a["on"]; en = a["on"]; net.reinitialize()
            elif k == "chem":
                o.chemistry_enabled = a["on"]; chem = a["on"]; net.reinitialize()
            elif k == "mult":
                if g.n_reactions:
                    i = a["i"] % g.n_reactions
                    g.set_multiplier(a["v"], i); mult[i] = a["v"]; net.reinitialize()
        th = o.thermo
        T0, D0, Y0, P0 = th.T, th.density, th.Y.copy(), th.P
        V0 = o.volume
        cov = [rs.coverages for f, rs in n.ifaces[0]]
        t1 = net.time
        if c["reset"]:
            net.initial_time = 0.0
            net.reinitialize() if False else None
        net.initial_time = t1
        net.advance(t1 + c["t"]) if not c["reset"] else net.advance(t1 + c["t"])
    except ct.CanteraError as e:
        rec.skip("history failed")
    if any((np.asarray(z) < -1e-7).any() for z in cov):
        rec.skip("the integrator left the admissible coverages")
    got, _ = snap(c, n)
    # a fresh network from the same point
    out = []
    for rtol, atol in ((1e-9, 1e-21), (1e-7, 1e-19)):
        c2 = json.loads(json.dumps(c))
        c2["R"][0].update(energy=en, chem=chem, V=V0)
        for s, z in zip(c2["R"][0]["surfs"], cov):
            s["cov"] = [max(float(x), 0.0) for x in z]
        m = build(c2, rec)
        m.gases[0].TDY = T0, D0, Y0
        m.obj[0].syncState()
        for i, v in mult.items():
            m.gases[0].set_multiplier(v, i)
        m.net.rtol = rtol; m.net.atol = atol; m.net.max_steps = 20000
        try:
            m.net.advance(c["t"])
        except ct.CanteraError:
            rec.skip("integration failed")
        out.append(snap(c2, m))
    (a, s), (b, _) = out
    if not (np.abs(a - b) < 1e-2 * s).all():
        rec.skip("solution too sensitive")
    compare(rec, "histories", got, a, 20 * np.abs(a - b) + 1e-6 * s)
    if any(x["op"] in ("advance", "step") for x in c["ops"]):
        rec.hit("+".join(sorted({x["op"] for x in c["ops"]})))

# ------------------------------------------------------------------ sensitivities
@st.composite
def sens_case(draw):
    c = draw(base(nmax=1, kinds=["Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor", "MoleReactor", "IdealGasMoleReactor"],
                  connectors=False))
    c["res"], c["walls"], c["flows"] = [], [], []
    c["R"][0]["energy"] = draw(st.sampled_from([True, True, False])); c["R"][0]["chem"] = True
    c["rxn"] = draw(st.lists(st.integers(0, 200), min_size=1, max_size=3, unique=True))
    c["sp"] = draw(st.lists(st.integers(0, 200), min_size=0, max_size=1))
    c["srx"] = draw(st.lists(st.integers(0, 200), min_size=0, max_size=1))
    return c

@sub("P17", "sensitivity", sens_case, quick=160, thorough=6000, shards=4, tshards=8, floor=0.1,
     rule="sensitivities to reaction multipliers (gas and surface) and species enthalpies against finite differences of repeated integrations")
def sensitivity(c, rec):
    t = c["t"]
    HS = ct.gas_constant * 298.15      # species enthalpies are varied in units of R * 298.15 K
    ATS = 1e-8
    def make(rtol=1e-12):
        n = run(c, rec, rtol, 1e-21)
        return n
    n = make(1e-10); o, g = n.obj[0], n.gases[0]
    if not g.n_reactions:
        rec.skip("no reactions")
    rx = sorted({i % g.n_reactions for i in c["rxn"]})
    sp = sorted({i % g.n_species for i in c["sp"]})
    params = []
    for i in rx:
        o.add_sensitivity_reaction(i); params.append(("r", i))
    for i in sp:
        # (with an energy variable the initial energy itself depends on the enthalpies)
        if o.type.startswith("IdealGas") and isinstance(g.species(i).thermo, (ct.NasaPoly2, ct.ConstantCp)):
            o.add_sensitivity_species_enthalpy(i); params.append(("h", i))
    if n.ifaces[0]:
        f, rs = n.ifaces[0][0]
        for i in sorted({i % f.n_reactions for i in c["srx"]}):
            rs.add_sensitivity_reaction(i); params.append(("s", i))
    n.net.rtol_sensitivity = 1e-5; n.net.atol_sensitivity = ATS
    try:
        n.net.advance(t)
        S = n.net.sensitivities()
        y = n.net.get_state()
    except ct.CanteraError:
        rec.skip("integration failed")
    rec.check("count", n.net.n_sensitivity_params == len(params), f"{n.net.n_sensitivity_params}")
    rec.check("shape", S.shape == (n.net.n_vars, len(params)) or S.shape == (len(params), n.net.n_vars), f"{S.shape}")
    nv = n.net.n_vars
    if S.shape != (nv, len(params)):
        S = S.T
    def perturbed(p, d):
        m = make(); go = m.gases[0]
        kind, i = p
        if kind == "r":
            go.set_multiplier(1 + d, i)
        elif kind == "s":
            m.ifaces[0][0][0].set_multiplier(1 + d, i)
        else:
            s = go.species(i); th = s.thermo; cf = th.coeffs.copy()
            if isinstance(th, ct.NasaPoly2):
                cf[6] += d * HS / ct.gas_constant; cf[13] += d * HS / ct.gas_constant
            else:
                cf[1] += d * HS
            s.thermo = type(th)(th.min_temp, th.max_temp, th.reference_pressure, cf)
            go.modify_species(i, s)
        m.net.advance(t)
        return m.net.get_state()
    names = [n.net.component_name(k) for k in range(nv)]
    for j, p in enumerate(params):
        rec.check("name", n.net.sensitivity_parameter_name(j) != "")
        for k in (0, nv // 2, nv - 1):
            rec.close("single", n.net.sensitivity(k, j), S[k, j], 1e-12)
        try:
            fd = []
            for d in (1e-2, 5e-3):
                a, b = perturbed(p, d), perturbed(p, -d)
                fd.append((a - b) / (2 * d))
        except ct.CanteraError:
            rec.skip("integration failed")
        if len(fd) < 2:
            continue
        D = fd[1]; err = np.abs(fd[0] - fd[1])
        sc = np.maximum(np.abs(y), 1e-12)
        raw = S[:, j] * np.where(y == 0, 1e-20, y) * (HS if p[0] == "h" else 1.0)
        # (the solver differentiates the right-hand side numerically: a few percent)
        tol = 5e-8 + 5 * err + 0.02 * np.abs(D) + 5e-3 * sc + 0.02 * np.abs(D / sc)[y > 1e-6].max() * sc
        if c["surf"]:      # fast adsorption: the numerical differentiation is noisy
            tol = tol + 0.05 * sc + 0.2 * np.abs(D)
        ok = np.abs(y) > 1e-6
        for k in np.nonzero(ok)[0]:
            if not c["R"][0]["energy"] and names[k].split(": ")[-1] in ("int_energy", "enthalpy", "temperature"):
                continue            # not a solved variable
            rec.close("sensitivity:" + p[0], raw[k], D[k], 0, tol[k], f"d({names[k]})/d(param {p}) at t={t}")
        if (np.abs(D) > 2e-2 * sc)[ok].any():
            rec.hit(p[0])

# ------------------------------------------------------------------ steady states
@st.composite
def steady_case(draw):
    return {"kind": draw(st.sampled_from(CV[:2] + CP[:2] + CV[2:])), "T": draw(uni(800, 1600)), "P": draw(logu(5e4, 1e6)), "phi": draw(uni(0.3, 3)), "dil": draw(uni(0.3, 0.8)),
            "tau": draw(logu(1e-4, 1)), "V": draw(logu(1e-4, 1)), "energy": draw(st.sampled_from([True, True, False])), "hot": draw(st.booleans()), "K": draw(logu(1e-6, 1e-5))}

@sub("P17", "steady", steady_case, quick=240, thorough=6000, shards=2, tshards=8, floor=0.5,
     rule="a well-stirred H2/O2 reactor advanced to steady state: inflow, outflow and reaction balance for every species and for the energy")
def steady(c, rec):
    gas = ct.Solution("h2o2.yaml")
    gas.set_equivalence_ratio(c["phi"], "H2", {"O2": 1.0})
    X = gas.X * (1 - c["dil"]); X[gas.species_index("N2")] += c["dil"]
    gas.TPX = c["T"], c["P"], X
    inlet = ct.Reservoir(gas)
    hin, Yin = gas.enthalpy_mass, gas.Y.copy()
    up = ct.Solution("h2o2.yaml"); up.TPX = c["T"], c["P"], X
    ex = ct.Solution("h2o2.yaml"); ex.TPX = c["T"], c["P"], X
    exh = ct.Reservoir(ex)
    if c["hot"]:
        up.equilibrate("HP" if c["energy"] else "TP")
    r = getattr(ct, c["kind"])(up, energy="on" if c["energy"] else "off", volume=c["V"])
    md = gas.density * c["V"] / c["tau"]
    m = ct.MassFlowController(inlet, r, mdot=md)
    pc = ct.PressureController(r, exh, primary=m, K=c["K"])
    net = ct.ReactorNet([r]); net.rtol = 1e-9; net.atol = 1e-16
    try:
        net.advance_to_steady_state()
    except ct.CanteraError:
        rec.skip("no steady state reached")
    y0, T0 = r.thermo.Y.copy(), r.T
    try:
        net.advance(net.time + 30 * c["tau"])
    except ct.CanteraError:
        rec.skip("integration failed")
    if abs(r.T - T0) > 1e-4 * T0 or np.abs(r.thermo.Y - y0).max() > 1e-5:
        rec.skip("not yet steady")      # slow ignition passed for a steady state: the documented criterion is a threshold
    th = r.thermo
    mo = pc.mass_flow_rate
    w = th.net_production_rates * th.molecular_weights * r.volume
    gr = reactors.gross(th) * th.molecular_weights * r.volume
    if "ConstPressure" in c["kind"]:
        # the volume follows: no constraint ties the outflow to the inflow but the controller
        pass
    bal = md * Yin - md * th.Y + w        # dilution form holds whatever the mass is doing
    rec.close("species balance", bal, np.zeros(len(bal)), 0, 1e-4 * md + 1e-7 * gr, f"kg/s, mdot={md}")
    if "ConstPressure" not in c["kind"]:
        rec.close("mass balance", mo, md, 1e-4)
        if c["energy"]:
            rec.close("energy balance", md * hin, mo * th.enthalpy_mass, 0, 1e-3 * md * (abs(hin) + th.cp_mass * th.T), "W")
    else:
        rec.close("P", th.P, c["P"], 1e-9)
        if c["energy"]:
            rec.close("energy balance", hin, th.enthalpy_mass, 0, 1e-3 * (abs(hin) + th.cp_mass * th.T), "J/kg")
    rec.hit("burning" if th.T > c["T"] + 100 else "cold")
