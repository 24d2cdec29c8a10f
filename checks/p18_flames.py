"""P18: one-dimensional flow domains.
residual: the residual of every equation at every point of a randomly configured stack of
domains at a random (unconverged) profile, against an independent evaluation of the
documented governing equations and boundary conditions.
refine: grid refinement inserts exactly what the documented criteria ask for, interpolates,
keeps the remaining points, and pruning never violates the criteria.
roundtrip: saving and restoring a simulation reproduces grid, profiles and settings.
solved: converged flames satisfy the steady equations, conserve mass and elements and obey
the boundary conditions."""
import math, os, tempfile, warnings
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
from gen import uni, logu, fractions

DATA = "/repo/data/"
_cache = {}
SETS = {"h2": ("h2o2.yaml", None),
        "co": ("gri30.yaml", ["H2", "H", "O", "O2", "OH", "H2O", "HO2", "H2O2", "CO", "CO2", "HCO", "CH2O", "CH4", "CH3", "N2", "AR"]),
        "ar": ("h2o2.yaml", ["AR", "H2", "O2", "H2O", "OH", "H", "O"])}

def solution(name, tr):
    if (name, tr) not in _cache:
        f, keep = SETS[name]
        f = DATA + f
        if keep is None:
            g = ct.Solution(f, transport_model=tr)
        else:
            if f not in _cache:
                _cache[f] = ({s.name: s for s in ct.Species.list_from_file(f)}, ct.Reaction.list_from_file(f, ct.Solution(f)))
            sp, rx = _cache[f]
            ok = set(keep)
            rr = [r for r in rx if set(r.reactants) | set(r.products) <= ok]
            rr = [r for r in rr if r.third_body is None or set(r.third_body.efficiencies) <= ok or True]
            g = ct.Solution(thermo="ideal-gas", kinetics="gas", species=[sp[n] for n in keep],
                            reactions=[ct.Reaction.from_dict(strip(r.input_data, ok), ct.Solution(f) if False else _kin(f)) for r in rr],
                            transport_model=tr)
        _cache[(name, tr)] = g
    return _cache[(name, tr)]

def _kin(f):
    if ("kin", f) not in _cache:
        _cache[("kin", f)] = ct.Solution(f)
    return _cache[("kin", f)]

def strip(d, ok):
    d = dict(d)
    if "efficiencies" in d:
        d["efficiencies"] = {k: v for k, v in d["efficiencies"].items() if k in ok}
    d.pop("duplicate", None)
    d["duplicate"] = True
    return d

@st.composite
def stack(draw, surf=True):
    c = {}
    c["flow"] = draw(st.sampled_from(["free", "unstrained", "axi", "axi"]))
    c["mech"] = draw(st.sampled_from(["h2", "co", "ar"]))
    c["tr"] = draw(st.sampled_from(["mixture-averaged", "mixture-averaged", "multicomponent", "unity-Lewis-number"]))
    c["basis"] = draw(st.sampled_from(["molar", "mass"]))
    c["soret"] = draw(st.booleans())
    c["n"] = draw(st.integers(3, 9))
    c["dz"] = draw(st.lists(logu(1e-5, 1e-2), min_size=10, max_size=10))
    c["z0"] = draw(st.sampled_from([0.0, 0.0, -0.01, 0.003]))
    c["P"] = draw(logu(1e3, 3e6))
    c["left"] = draw(st.sampled_from(["inlet", "inlet", "inlet", "symmetry"]))
    c["right"] = draw(st.sampled_from(["inlet", "outlet", "reservoir", "symmetry", "surface"] + (["reacting", "reacting"] if surf else [])))
    c["seed"] = draw(st.integers(0, 2**31))
    c["uscale"] = draw(logu(1e-3, 10))
    c["sparse"] = draw(st.booleans())
    c["rad"] = draw(st.sampled_from([None, None, [0.0, 0.0], [0.3, 0.9]]))
    c["radtoggle"] = draw(st.booleans())
    c["twopoint"] = draw(st.integers(0, 3)) == 0
    c["cov"] = draw(st.booleans())
    c["settr"] = draw(st.booleans())
    c["reuse"] = draw(st.booleans())
    return c

def build(c):
    """Return dict with the objects and the numpy state"""
    rng = np.random.default_rng(c["seed"])
    surf = None
    if c["right"] == "reacting":
        if ("pt", c["tr"]) not in _cache:
            sf = ct.Interface(DATA + "ptcombust.yaml", "Pt_surf")
            gg = sf.adjacent["gas"]
            gg.transport_model = c["tr"]
            _cache[("pt", c["tr"])] = (gg, sf)
        gas, surf = _cache[("pt", c["tr"])]
    else:
        gas = solution(c["mech"], c["tr"])
    gas.TPX = 300, c["P"], {"H2": 1, "O2": 1, "AR": 1}
    ns = gas.n_species
    F = {"free": ct.FreeFlow, "unstrained": ct.UnstrainedFlow, "axi": ct.AxisymmetricFlow}[c["flow"]]
    flow = F(gas, name="flow")
    left = ct.Inlet1D(gas, name="left") if c["left"] == "inlet" else ct.SymmetryPlane1D(gas, name="left")
    r = c["right"]
    if r == "inlet": right = ct.Inlet1D(gas, name="right")
    elif r == "outlet": right = ct.Outlet1D(gas, name="right")
    elif r == "reservoir": right = ct.OutletReservoir1D(gas, name="right")
    elif r == "symmetry": right = ct.SymmetryPlane1D(gas, name="right")
    elif r == "surface": right = ct.Surface1D(gas, name="right")
    else: right = ct.ReactingSurface1D(surf, name="right")
    n = c["n"]
    z = c["z0"] + np.concatenate([[0], np.cumsum(c["dz"][:n - 1])])
    flow.grid = z
    z = np.array(flow.grid)
    flow.P = c["P"]
    sim = ct.Sim1D([left, flow, right])
    o = dict(gas=gas, surf=surf, flow=flow, left=left, right=right, sim=sim, z=z, ns=ns)
    def comp():
        y = rng.dirichlet(np.ones(ns) * 0.5)
        if c["sparse"]:
            y *= rng.random(ns) < 0.4
            y[rng.integers(ns)] += 0.3
        return y / y.sum()
    S = {}
    S["u"] = c["uscale"] * rng.uniform(-1, 1.5, n) if c["flow"] == "axi" else c["uscale"] * rng.uniform(0.1, 1, n)
    S["V"] = rng.uniform(-5, 50, n)
    S["T"] = rng.uniform(250, 2500, n)
    S["L"] = -10 ** rng.uniform(0, 4, n)
    S["E"] = rng.uniform(-1, 1, n)
    S["Uo"] = rng.uniform(-3, 0, n)
    S["Y"] = np.array([comp() for _ in range(n)])
    o["S"] = S
    o["yl"], o["yr"] = comp(), comp()
    o["Tl"], o["Tr"] = rng.uniform(280, 800), rng.uniform(280, 2000)
    o["ml"], o["mr"] = 10 ** rng.uniform(-3, 1), 10 ** rng.uniform(-3, 1)
    o["Vl"], o["Vr"] = rng.uniform(0, 50, 2) * (rng.random(2) < 0.5)
    if surf:
        o["theta"] = rng.dirichlet(np.ones(surf.n_species))
    return o

def apply(c, o):
    flow, sim, S = o["flow"], o["sim"], o["S"]
    names = flow.component_names
    for d, y, T, m, V in ((o["left"], o["yl"], o["Tl"], o["ml"], o["Vl"]), (o["right"], o["yr"], o["Tr"], o["mr"], o["Vr"])):
        if isinstance(d, ct.Inlet1D):
            d.Y = y; d.T = T; d.mdot = m; d.spread_rate = V
        elif isinstance(d, ct.OutletReservoir1D):
            d.Y = y; d.T = T
        elif isinstance(d, (ct.Surface1D, ct.ReactingSurface1D)):
            d.T = T
    n = c["n"]
    for j in range(n):
        for nm, a in (("velocity", S["u"]), ("spread_rate", S["V"]), ("T", S["T"]), ("lambda", S["L"]), ("eField", S["E"]), ("Uo", S["Uo"])):
            sim.set_value("flow", nm, j, a[j])
        for k in range(o["ns"]):
            sim.set_value("flow", names[6 + k], j, S["Y"][j, k])
    if o["surf"] is not None:
        o["right"].coverage_enabled = c["cov"]
        for k, nm in enumerate(o["surf"].species_names):
            sim.set_value("right", nm, 0, o["theta"][k])

def work(o, dom, names, n):
    sim = o["sim"]
    return np.array([[sim.work_value(dom, nm, j) for nm in names] for j in range(n)])

def reference(c, o, rad, soret, basis, tp):
    """Documented equations; returns dict of arrays and scale arrays"""
    gas, z, S, n, ns = o["gas"], o["z"], o["S"], c["n"], o["ns"]
    P = c["P"]; W = gas.molecular_weights
    T, u, V, L, Y = S["T"], S["u"], S["V"], S["L"], S["Y"]
    rho = np.zeros(n); cp = np.zeros(n); wt = np.zeros(n); w = np.zeros((n, ns)); h = np.zeros((n, ns)); X = np.zeros((n, ns))
    for j in range(n):
        gas.set_unnormalized_mass_fractions(Y[j]); gas.TP = T[j], P
        rho[j], cp[j], wt[j] = gas.density, gas.cp_mass, gas.mean_molecular_weight
        w[j] = gas.net_production_rates
        h[j] = gas.partial_molar_enthalpies
        X[j] = Y[j] / W * gas.mean_molecular_weight
        o.setdefault("wabs", np.zeros((n, ns)))[j] = gas.creation_rates + gas.destruction_rates
    nm = n - 1
    J = np.zeros((nm, ns)); Ja = np.zeros((nm, ns)); mu = np.zeros(nm); lam = np.zeros(nm)
    for j in range(nm):
        dz = z[j + 1] - z[j]
        gas.set_unnormalized_mass_fractions(0.5 * (Y[j] + Y[j + 1])); gas.TP = 0.5 * (T[j] + T[j + 1]), P
        mu[j] = gas.viscosity; lam[j] = gas.thermal_conductivity
        r, wm = gas.density, gas.mean_molecular_weight
        if c["tr"] == "multicomponent":
            D = gas.multi_diff_coeffs
            t = (D * W[None, :]) * (X[j + 1] - X[j])[None, :]
            J[j] = r * W / wm**2 * t.sum(1) / dz
            Ja[j] = r * W / wm**2 * abs(t).sum(1) / dz
        else:
            if basis == "molar":
                J[j] = r * W / wm * gas.mix_diff_coeffs * (X[j] - X[j + 1]) / dz
            else:
                J[j] = r * gas.mix_diff_coeffs_mass * (Y[j] - Y[j + 1]) / dz
            Ja[j] = abs(J[j]) + abs(J[j]).sum() * Y[j]
            J[j] -= J[j].sum() * Y[j]
        if soret:
            DT = gas.thermal_diff_coeffs
            s = DT * 2 * (T[j + 1] - T[j]) / (T[j + 1] + T[j]) / dz
            J[j] -= s; Ja[j] += abs(s)
    visc = c["right"] != "outlet"
    R = {k: np.zeros(n) for k in ("u", "V", "T", "L", "E", "Uo")}
    A = {k: np.zeros(n) for k in R}
    R["Y"] = np.zeros((n, ns)); A["Y"] = np.zeros((n, ns))
    axi, free = c["flow"] == "axi", c["flow"] == "free"
    ru = rho * u
    def put(eq, j, *terms):
        R[eq][j] = sum(terms); A[eq][j] = sum(abs(x) for x in terms)
    def putY(j, *terms):
        R["Y"][j] = sum(terms); A["Y"][j] = sum(abs(x) for x in terms)
    q = np.zeros(n)
    if rad is not None:
        sig = ct.stefan_boltzmann
        cH = [-0.23093, -1.12390, 9.41530, -2.99880, 0.51382, -1.86840e-5]
        cC = [18.741, -121.310, 273.500, -194.050, 56.310, -5.8169]
        for j in range(1, n - 1):
            k = 0
            for name, cc in (("H2O", cH), ("CO2", cC)):
                if name in gas.species_names:
                    k += P / ct.one_atm * X[j, gas.species_index(name)] * sum(a * (1000 / T[j])**i for i, a in enumerate(cc))
            q[j] = 2 * k * (2 * sig * T[j]**4 - rad[0] * sig * T[0]**4 - rad[1] * sig * T[-1]**4)
    zf = o.get("zfix")
    for j in range(n):
        inner = 0 < j < n - 1
        # continuity
        if axi and j < n - 1 or (not axi and j == 0):
            d = z[j + 1] - z[j]
            put("u", j, -ru[j + 1] / d, ru[j] / d, -rho[j + 1] * V[j + 1], -rho[j] * V[j])
        elif axi:
            put("u", j, ru[j])
        elif free and inner:
            if z[j] > zf: put("u", j, -ru[j] / (z[j] - z[j-1]), ru[j-1] / (z[j] - z[j-1]))
            elif z[j] == zf: put("u", j, T[j], -o["Tfix"])
            else: put("u", j, -ru[j+1] / (z[j+1] - z[j]), ru[j] / (z[j+1] - z[j]))
        else:
            put("u", j, ru[j], -ru[j - 1])
        # electric field and second inlet velocity
        put("E", j, S["E"][j])
        Uo = S["Uo"]
        if not tp: put("Uo", j, Uo[j])
        elif j == 0: put("Uo", j, Uo[1], -Uo[0])
        elif j == n - 1: put("Uo", j, Uo[j], -Uo[j - 1])
        elif z[j] == o["zr"]: put("Uo", j, T[j], -o["tr_"])
        elif z[j] > o["zr"]: put("Uo", j, Uo[j], -Uo[j - 1])
        else: put("Uo", j, Uo[j], -Uo[j + 1])
        if not axi:
            put("V", j, V[j]); put("L", j, L[j])
        else:
            if j == 0: put("L", j, *((L[1], -L[0]) if tp else (-ru[0],)))
            elif j == n - 1: put("L", j, L[j], -L[j - 1])
            elif tp and z[j] == o["zl"]: put("L", j, T[j], -o["tl_"])
            elif tp and z[j] < o["zl"]: put("L", j, L[j], -L[j + 1])
            else: put("L", j, L[j], -L[j - 1])
            if inner:
                up = j if u[j] > 0 else j + 1
                dc = (z[j + 1] - z[j - 1]) / 2
                put("V", j, *([mu[j] * (V[j+1] - V[j]) / (z[j+1] - z[j]) / dc / rho[j], -mu[j-1] * (V[j] - V[j-1]) / (z[j] - z[j-1]) / dc / rho[j]] if visc else []),
                    -L[j] / rho[j], -u[j] * (V[up] - V[up-1]) / (z[up] - z[up-1]), -V[j]**2)
            else:
                put("V", j, V[j])
        if inner:
            up = j if u[j] > 0 else j + 1
            dc = (z[j + 1] - z[j - 1]) / 2; du = z[up] - z[up - 1]
            rc = rho[j] * cp[j]
            hd = (h[up] - h[up - 1]) / du
            fx = 0.5 * (J[j] + J[j - 1]); fa = 0.5 * (Ja[j] + Ja[j-1])
            put("T", j, -u[j] * (T[up] - T[up - 1]) / du, lam[j] * (T[j+1] - T[j]) / (z[j+1] - z[j]) / dc / rc,
                -lam[j-1] * (T[j] - T[j-1]) / (z[j] - z[j-1]) / dc / rc, -(w[j] @ h[j]) / rc, -(fx / W) @ hd / rc, -q[j] / rc)
            A["T"][j] += (o["wabs"][j] @ abs(h[j])) / rc + (fa / W) @ abs(hd) / rc
            putY(j, w[j] * W / rho[j], -u[j] * (Y[up] - Y[up-1]) / du, -(J[j] - J[j-1]) / dc / rho[j])
            A["Y"][j] += o["wabs"][j] * W / rho[j] + (Ja[j] + Ja[j-1]) / dc / rho[j]
    # boundaries
    kl, kr = int(np.argmax(Y[0])), int(np.argmax(Y[-1]))
    if c["left"] == "inlet":
        put("T", 0, T[0], -o["Tl"])
        m = o["ml"]
        if free or tp: m = ru[0]
        if axi:
            put("V", 0, V[0], -o["Vl"])
            if not tp: put("L", 0, m, -ru[0])
        elif not free:
            put("u", 0, ru[0], -m)
        putY(0, m * o["yl"], -J[0], -ru[0] * Y[0]); A["Y"][0] += Ja[0]
    else:
        put("T", 0, T[0], -T[1]); put("V", 0, V[0], -V[1])
        putY(0, -J[0], -ru[0] * Y[0]); A["Y"][0] += Ja[0]
    R["Y"][0, kl] = 1 - Y[0].sum(); A["Y"][0, kl] = 1
    r = c["right"]
    putY(n-1, J[-1], ru[-1] * Y[-1]); A["Y"][n-1] += Ja[-1]
    if r == "inlet":
        put("T", n-1, T[-1], -o["Tr"]); put("V", n-1, V[-1], -o["Vr"])
        m = -rho[-1] * S["Uo"][-1] if tp else o["mr"]
        put("u", n-1, ru[-1], m)
        putY(n-1, J[-1], ru[-1] * Y[-1], m * o["yr"]); A["Y"][n-1] += Ja[-1]
    elif r == "outlet":
        put("T", n-1, T[-1], -T[-2]); putY(n-1, Y[-1], -Y[-2])
    elif r == "reservoir":
        put("T", n-1, T[-1], -T[-2]); putY(n-1, Y[-1], -o["yr"])
    elif r == "symmetry":
        put("T", n-1, T[-1], -T[-2]); put("V", n-1, V[-1], -V[-2])
    else:
        put("T", n-1, T[-1], -o["Tr"])
        if r == "reacting":
            gas.TPY = T[-1], P, Y[-1]
            o["surf"].TP = o["Tr"], P
            o["surf"].coverages = o["theta"]
            sd = o["surf"].get_net_production_rates("gas"); sa = o["surf"].get_creation_rates("gas") + o["surf"].get_destruction_rates("gas")
            putY(n-1, J[-1], ru[-1] * Y[-1], sd * W); A["Y"][n-1] += Ja[-1] + sa * W
            ss = o["surf"].get_net_production_rates(o["surf"].name); sz = np.array([s.size for s in o["surf"].species()])
            if c["cov"]:
                R["cov"] = ss * sz / o["surf"].site_density
                A["cov"] = (o["surf"].get_creation_rates(o["surf"].name) + o["surf"].get_destruction_rates(o["surf"].name)) * sz / o["surf"].site_density
                R["cov"][0] = 1 - o["theta"].sum(); A["cov"][0] = 1
            else:
                R["cov"] = o["theta"] - (o["theta"] if o.get("finalized") else np.eye(len(ss))[0]); A["cov"] = np.ones(len(ss))
    R["Y"][-1, kr] = 1 - Y[-1].sum(); A["Y"][-1, kr] = 1
    return R, A

@sub("P18", "residual", stack, quick=1600, thorough=60000, shards=3, tshards=8, floor=0.6,
     rule="stacks of a flow domain of each of the 3 types between each pair of boundary types, with each transport model, flux basis, Soret, radiation, two-point control")
def residual(c, rec):
    c = dict(c)
    axi = c["flow"] == "axi"
    if not axi:
        if c["left"] == "symmetry":
            c["left"] = "inlet"
        if c["right"] == "inlet":
            c["right"] = "outlet"
    tp = c["twopoint"] and axi and c["left"] == "inlet" and c["right"] == "inlet" and c["n"] >= 5
    o = build(c)
    flow, sim, z, S, n = o["flow"], o["sim"], o["z"], o["S"], c["n"]
    flow.energy_enabled = True
    if c["settr"]:
        flow.transport_model = c["tr"]
    soret = c["soret"] and c["tr"] == "multicomponent"
    flow.soret_enabled = soret
    basis = c["basis"] if c["tr"] == "mixture-averaged" else ("mass" if False else "molar")
    if c["tr"] == "mixture-averaged":
        flow.flux_gradient_basis = c["basis"]
    apply(c, o)
    rad = c["rad"]
    if rad is not None:
        flow.boundary_emissivities = rad[0], rad[1]
        flow.radiation_enabled = True
        rec.hit("radiation")
    if c["flow"] == "free":
        S["T"][:] = np.sort(S["T"]); apply(c, o)
        o["Tfix"] = 0.5 * (S["T"][0] + S["T"][-1])
        sim.fixed_temperature = o["Tfix"]
        z2 = np.array(flow.grid)
        if len(z2) != n:
            # a point was inserted where the interpolated temperature equals the request
            jn = int(np.argmin(np.isin(z2, z)))
            f = (z2[jn] - z[jn - 1]) / (z[jn] - z[jn - 1])
            for k in S:
                S[k] = np.insert(S[k], jn, S[k][jn - 1] * (1 - f) + S[k][jn] * f, axis=0)
            c["n"] = n = n + 1
            o["z"] = z = z2
            rec.hit("fixed point inserted")
            rec.close("fixed point", S["T"][jn], o["Tfix"], 1e-9, 0, "temperature at the inserted point")
        o["finalized"] = True
        o["zfix"] = sim.fixed_temperature_location
        rec.check("fixed point", o["zfix"] in z, f"location {o['zfix']} is not a grid point")
        apply(c, o)
    if tp:
        flow.two_point_control_enabled = True
        S["T"][:] = np.concatenate([np.sort(S["T"][:n // 2]), np.sort(S["T"][n // 2:])[::-1]])
        S["T"][0] = 260; S["T"][-1] = 270; S["T"][n // 2] = 2600
        apply(c, o)
        mid = 600.0
        sim.set_left_control_point(mid)
        sim.set_right_control_point(mid + 100)
        o["zl"], o["zr"] = flow.left_control_point_coordinate, flow.right_control_point_coordinate
        o["tl_"], o["tr_"] = flow.left_control_point_temperature, flow.right_control_point_temperature
        z2 = np.array(flow.grid)
        if len(z2) != n or not np.allclose(z2, z, rtol=0, atol=0):
            S2 = {k: np.array([[sim.value("flow", nm, j) for nm in nms] for j in range(len(z2))]) for k, nms in
                  (("u", ["velocity"]), ("V", ["spread_rate"]), ("T", ["T"]), ("L", ["lambda"]), ("E", ["eField"]), ("Uo", ["Uo"]), ("Y", flow.component_names[6:]))}
            for k in S:
                S[k] = S2[k] if k == "Y" else S2[k][:, 0]
            c["n"] = n = len(z2); o["z"] = z = z2
        rec.check("control points", o["zl"] in z and o["zr"] in z and o["zl"] < o["zr"], f"{o['zl']} {o['zr']}")
        rec.hit("two-point control")
    try:
        if c["reuse"]:
            # evaluate first at another state and with the radiation switched the other way
            T0 = S["T"].copy(); S["T"] = T0 * 1.01 + 3; apply(c, o)
            if c["radtoggle"]:
                flow.radiation_enabled = rad is None
            sim.eval(0.0)
            if c["radtoggle"]:
                flow.radiation_enabled = rad is not None
                rec.hit("radiation toggled")
            S["T"] = T0; apply(c, o)
        if c["seed"] % 7 == 0 and rad is None:
            rec.label("plain")
        sim.eval(0.0)
    except ct.CanteraError as e:
        rec.fail("eval", f"{str(e)[:300]}")
        return
    if rad is not None and not c["reuse"]:
        pass
    names = flow.component_names
    got = work(o, "flow", names, n)
    gcov = work(o, "right", o["surf"].species_names, 1)[0] if o["surf"] is not None else None
    R, A = reference(c, o, rad, soret, basis, tp)
    rec.hit(c["flow"]); rec.hit("right:" + c["right"]); rec.hit(c["tr"]); rec.hit("left:" + c["left"])
    if np.any(S["u"] < 0): rec.hit("reverse flow")
    for i, eq in enumerate(["u", "V", "T", "L", "E", "Uo"]):
        for j in range(n):
            rec.close(f"{eq} equation", got[j, i], R[eq][j], 1e-7, 1e-9 * A[eq][j] + 1e-11,
                      f"{names[i]} at point {j} of {n}, {c['flow']}, {c['left']}/{c['right']}, {c['tr']}")
    err = abs(got[:, 6:] - R["Y"]) - (1e-7 * abs(R["Y"]) + 1e-9 * A["Y"] + 1e-12)
    j, k = np.unravel_index(np.argmax(err), err.shape)
    rec.close("species equation", got[j, 6 + k], R["Y"][j, k], 1e-7, 1e-9 * A["Y"][j, k] + 1e-12,
              f"{names[6+k]} at point {j} of {n}, {c['flow']}, {c['left']}/{c['right']}, {c['tr']} excess {np.argmax(S['Y'][0])} {np.argmax(S['Y'][-1])}")
    if gcov is not None:
        k = int(np.argmax(abs(gcov - R["cov"]) - 1e-7 * abs(R["cov"]) - 1e-8 * A["cov"]))
        rec.close("coverage equation", gcov[k], R["cov"][k], 1e-7, 1e-8 * A["cov"][k] + 1e-12, f"{o['surf'].species_names[k]} cov={c['cov']}")

# ------------------------------------------------------------------------------------
@st.composite
def refine_case(draw):
    c = draw(stack())
    c["n"] = draw(st.integers(3, 10)) if draw(st.booleans()) else draw(st.integers(10, 40))
    c["dz"] = draw(st.lists(logu(1e-5, 1e-2) if draw(st.booleans()) else uni(1e-4, 3e-4), min_size=c["n"], max_size=c["n"]))
    c["slope"] = draw(uni(0.02, 0.9)); c["curve"] = draw(uni(0.02, 0.9))
    c["ratio"] = draw(uni(2.0, 12))
    c["prune"] = draw(st.sampled_from([0, 0, 0.3, 0.9, 1.0]))
    c["shape"] = draw(st.sampled_from(["random", "sigmoid", "bump", "linear", "flat"]))
    c["gridmin"] = draw(st.sampled_from([None, None, 1e-4, 3e-3]))
    c["passes"] = draw(st.integers(1, 3))
    return c

def criteria(z, vals, ratio, slope, curve, gridmin):
    """(must, may): sets of interval indices that need a new point / may get one"""
    n = len(z); dz = np.diff(z)
    thr = math.sqrt(np.finfo(float).eps)
    must, may = set(), set()
    for v, active in vals:
        s = np.diff(v) / dz
        rv = v.max() - v.min(); rs = s.max() - s.min()
        if rv > 0:
            q = abs(np.diff(v)) / (slope * rv + thr)
            for j in range(n - 1):
                if q[j] > 0.999 and dz[j] >= 2 * gridmin * 0.999: may.add(j)
                if active and q[j] > 1.001 and rv > 0.0101 * abs(v).max() and dz[j] >= 2 * gridmin * 1.001: must.add(j)
        if rs > 0 and n > 2:
            q = abs(np.diff(s)) / (curve * rs + thr / dz[:-1])
            for j in range(n - 2):
                g = min(dz[j], dz[j + 1])
                if q[j] > 0.999 and g >= 2 * gridmin * 0.999: may |= {j, j + 1}
                if active and q[j] > 1.001 and rs > 0.0101 * abs(s).max() and g >= 2 * gridmin * 1.001: must |= {j, j + 1}
    for j in range(1, n - 1):
        a, b = dz[j], dz[j - 1]
        if a > ratio * b * 0.999999: may.add(j)
        if a > ratio * b * 1.000001: must.add(j)
        if b > ratio * a * 0.999999: may.add(j - 1)
        if b > ratio * a * 1.000001: must.add(j - 1)
    return must, may

@sub("P18", "refine", refine_case, quick=700, thorough=40000, shards=1, tshards=8, floor=0.5,
     rule="profiles of several shapes on uniform and irregular grids refined up to three times with generated criteria, minimum spacing and pruning")
def refine(c, rec):
    c = dict(c)
    if c["flow"] != "axi":
        c["left"] = "inlet"
        if c["right"] == "inlet": c["right"] = "outlet"
    o = build(c)
    flow, sim, S, z, n = o["flow"], o["sim"], o["S"], o["z"], c["n"]
    x = (z - z[0]) / (z[-1] - z[0])
    rng = np.random.default_rng(c["seed"] + 1)
    if c["shape"] != "random":
        f = {"sigmoid": 1 / (1 + np.exp(-30 * (x - 0.4))), "bump": np.exp(-((x - 0.5) / 0.1)**2), "linear": x, "flat": 0 * x}[c["shape"]]
        S["T"] = 300 + 1500 * f
        S["u"] = 0.3 + f
        a, b = S["Y"][0], S["Y"][-1]
        S["Y"] = a[None, :] * (1 - f)[:, None] + b[None, :] * f[:, None]
        S["V"] = 10 * f * (1 - f); S["L"][:] = -100.0; S["E"][:] = 0; S["Uo"][:] = 0
    apply(c, o)
    prune = min(c["prune"] * min(c["slope"], c["curve"]), min(c["slope"], c["curve"]))
    sim.set_refine_criteria("flow", c["ratio"], c["slope"], c["curve"], prune)
    rec.close("criteria", list(sim.get_refine_criteria("flow").values()), [c["ratio"], c["slope"], c["curve"], prune], 1e-12, 0, "get_refine_criteria")
    gm = c["gridmin"] or 1e-10
    if c["gridmin"]:
        sim.set_grid_min(c["gridmin"], "flow")
    if c["flow"] == "free" and c["shape"] in ("sigmoid", "linear"):
        sim.fixed_temperature = 900.0
        rec.hit("fixed point")
    names = flow.component_names
    act = {"velocity", "spread_rate", "T", "eField"} | set(names[6:])
    for p in range(c["passes"]):
        z0 = np.array(flow.grid)
        P0 = {nm: np.array(sim.profile("flow", nm)) for nm in names}
        zf = sim.fixed_temperature_location if c["flow"] == "free" and c["shape"] in ("sigmoid", "linear") else None
        must, may = criteria(z0, [(P0[nm], nm in act) for nm in names], c["ratio"], c["slope"], c["curve"], gm)
        sim.refine(0)
        z1 = np.array(flow.grid)
        rec.check("grid increasing", np.all(np.diff(z1) > 0), f"{z1}")
        rec.check("ends kept", z1[0] == z0[0] and z1[-1] == z0[-1], f"{z1[[0,-1]]} {z0[[0,-1]]}")
        kept = np.isin(z0, z1)
        new = z1[~np.isin(z1, z0)]
        iv = []
        for zz in new:
            j = int(np.searchsorted(z0, zz)) - 1
            iv.append(j)
            rec.close("midpoint", zz, 0.5 * (z0[j] + z0[j + 1]), 1e-12, 1e-15, f"new point {zz} in interval {j}")
        rec.check("one point per interval", len(set(iv)) == len(iv), f"{iv}")
        if prune == 0:
            rec.check("no pruning", kept.all(), f"points {np.where(~kept)[0]} removed with prune=0")
        missing = {j for j in must if kept[j]} - set(iv)
        rec.check("needed point added", not missing, f"intervals {sorted(missing)} exceed the criteria, no point was added; n={len(z0)} shape {c['shape']} prune {prune}")
        extra = set(iv) - may
        rec.check("no needless point", not extra, f"intervals {sorted(extra)} satisfy all criteria but got a point; n={len(z0)} {c['shape']}")
        gone = np.where(~kept)[0]
        if len(gone):
            rec.hit("pruned")
            rec.check("no adjacent points removed", np.all(np.diff(gone) > 1), f"{gone}")
            m2, _ = criteria(z1, [(np.interp(z1, z0, P0[nm]), False) for nm in names], c["ratio"], 1, 1, gm)
            if not len(new):
                rec.check("pruned grid obeys ratio", not m2, f"intervals {sorted(m2)} of the pruned grid exceed ratio {c['ratio']}")
            if zf is not None:
                rec.check("fixed point kept", zf in z1, f"{zf}")
        if len(new): rec.hit("refined")
        for nm in names:
            got = np.array(sim.profile("flow", nm))
            want = np.interp(z1, z0, P0[nm])
            d = abs(got - want); k = int(np.argmax(d))
            rec.close("interpolated profile", got[k], want[k], 1e-9, 1e-10 * abs(P0[nm]).max() + 1e-300, f"{nm} at point {k} of {len(z1)}")
        if len(z1) > 150 or (len(z1) == len(z0) and kept.all()):
            break

# ------------------------------------------------------------------------------------
@st.composite
def round_case(draw):
    c = draw(stack())
    c["nolambda"] = draw(st.booleans())
    c["fmt"] = draw(st.sampled_from(["yaml", "yaml", "array"]))
    c["tol"] = draw(st.lists(logu(1e-10, 1e-3), min_size=8, max_size=8))
    c["refcrit"] = draw(st.tuples(uni(2, 10), uni(0.05, 0.9), uni(0.05, 0.9), st.sampled_from([0, 0.01, 0.04])))
    c["eval"] = draw(st.booleans())
    c["emis"] = draw(st.booleans())
    c["energy"] = draw(st.booleans())
    c["pname"] = draw(st.sampled_from(["solution", "my case", "1", "a:b"]))
    c["swap"] = draw(st.booleans())
    return c

@sub("P18", "roundtrip", round_case, quick=500, thorough=20000, shards=1, tshards=6, floor=0.5,
     rule="simulations with generated states and settings saved (YAML file or arrays) and restored into a simulation with another grid and state")
def roundtrip(c, rec):
    c = dict(c)
    if c["flow"] != "axi":
        c["left"] = "inlet"
        if c["right"] == "inlet": c["right"] = "outlet"
    o = build(c)
    flow, sim, S, n = o["flow"], o["sim"], o["S"], c["n"]
    apply(c, o)
    flow.transport_model = c["tr"]
    flow.soret_enabled = c["soret"] and c["tr"] == "multicomponent"
    if c["tr"] == "mixture-averaged":
        flow.flux_gradient_basis = c["basis"]
    flow.energy_enabled = c["energy"]
    if c["rad"] is not None and c["emis"]:
        flow.boundary_emissivities = tuple(c["rad"]); flow.radiation_enabled = True
    t = c["tol"]
    flow.set_steady_tolerances(default=(t[0], t[1]))
    flow.set_transient_tolerances(default=(t[2], t[3]))
    flow.set_steady_tolerances(T=(t[4], t[5])); flow.set_transient_tolerances(**{flow.component_names[-1]: (t[6], t[7])})
    r = c["refcrit"]
    sim.set_refine_criteria("flow", r[0], r[1], r[2], r[3])
    sim.set_max_grid_points("flow", 777); sim.set_grid_min(3e-9, "flow")
    if c["flow"] == "free":
        S["T"][:] = np.sort(S["T"]); apply(c, o)
        sim.fixed_temperature = 0.5 * (S["T"][0] + S["T"][-1])
    if c["eval"]:
        sim.eval(0.0)
    before = snapshot(c, o, sim, o["left"], flow, o["right"])
    rec.hit(c["flow"]); rec.hit("right:" + c["right"])
    c2 = dict(c, n=max(3, c["n"] - 2), seed=c["seed"] + 17, P=c["P"] * 1.7)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "s.yaml")
        if c["fmt"] == "yaml":
            sim.save(fn, c["pname"])
            o2 = build(c2); apply(c2, o2)
            sim2 = o2["sim"]
            sim2.restore(fn, c["pname"])
            if c["swap"]:
                sim2.save(fn, "again"); sim2.restore(fn, "again")
                rec.hit("twice")
        else:
            arrs = []
            for dom, ph in ((o["left"], o["gas"]), (flow, o["gas"]), (o["right"], o["surf"] if o["surf"] is not None else o["gas"])):
                a = ct.SolutionArray(ph)
                dom._to_array(a, False)
                arrs.append(a)
            o2 = build(c2); apply(c2, o2)
            sim2 = o2["sim"]
            for dom, a in zip((o2["left"], o2["flow"], o2["right"]), arrs):
                dom._from_array(a)
    after = snapshot(c, o2, sim2, o2["left"], o2["flow"], o2["right"])
    for k in before:
        a, b = after[k], before[k]
        if isinstance(b, np.ndarray) or isinstance(b, float):
            if np.shape(a) != np.shape(b):
                rec.fail(f"restored {k}", f"shape {np.shape(a)} != {np.shape(b)}, {c['flow']} {c['right']}"); continue
            rec.close(f"restored {k}", a, b, 1e-8, 1e-12 * max(1, np.max(np.abs(b))) if k != "P" else 0, f"{k}: {c['flow']} {c['left']}/{c['right']} {c['fmt']}")
        else:
            rec.check(f"restored {k}", a == b, f"{k}: {a} != {b} {c['flow']} {c['right']}")

def snapshot(c, o, sim, left, flow, right):
    out = {"grid": np.array(flow.grid), "P": float(flow.P)}
    axi = c["flow"] == "axi"
    for nm in flow.component_names:
        if nm in ("spread_rate", "lambda") and not axi or nm in ("eField", "Uo"):
            continue
        out["profile " + (nm if nm in ("velocity", "T", "spread_rate", "lambda") else "Y")] = None
    names = flow.component_names
    for nm in ("velocity", "T") + (("spread_rate", "lambda") if axi else ()):
        out["profile " + nm] = np.array(sim.profile("flow", nm))
    out["profile Y"] = np.array([sim.profile("flow", nm) for nm in names[6:]])
    for lab, d in (("left", left), ("right", right)):
        if isinstance(d, ct.Inlet1D):
            out[lab + " Y"] = np.array(d.Y); out[lab + " T"] = float(d.T); out[lab + " mdot"] = float(d.mdot)
            out[lab + " spread"] = float(d.spread_rate)
        elif isinstance(d, ct.OutletReservoir1D):
            out[lab + " Y"] = np.array(d.Y)
        elif isinstance(d, (ct.Surface1D, ct.ReactingSurface1D)):
            out[lab + " T"] = float(d.T)
            if isinstance(d, ct.ReactingSurface1D):
                out["coverages"] = np.array([sim.value("right", nm, 0) for nm in d.component_names])
    out["transport"] = flow.transport_model
    out["soret"] = flow.soret_enabled
    out["radiation"] = flow.radiation_enabled
    out["energy"] = flow.energy_enabled
    if flow.radiation_enabled:
        out["emissivities"] = np.array(flow.boundary_emissivities)
    if flow.transport_model == "mixture-averaged":
        out["basis"] = flow.flux_gradient_basis
    for nm in ("T", "velocity", names[6], names[-1]):
        out["tol " + nm] = np.array([flow.steady_reltol(nm), flow.steady_abstol(nm), flow.transient_reltol(nm), flow.transient_abstol(nm)])
    out["criteria"] = np.array(list(sim.get_refine_criteria("flow").values()))
    out["max points"] = sim.get_max_grid_points("flow")
    if c["flow"] == "free":
        out["fixed T"] = float(sim.fixed_temperature); out["fixed z"] = float(sim.fixed_temperature_location)
    return out

# ------------------------------------------------------------------------------------
@st.composite
def solve_case(draw):
    c = {}
    c["kind"] = draw(st.sampled_from(["burner", "burner", "free", "diffusion", "premixed-counterflow", "twin", "stagnation", "impinging"]))
    c["mech"] = draw(st.sampled_from(["h2", "h2", "co"]))
    c["tr"] = draw(st.sampled_from(["mixture-averaged", "mixture-averaged", "unity-Lewis-number", "multicomponent"]))
    c["soret"] = draw(st.booleans())
    c["P"] = draw(logu(3e4, 5e5))
    c["T0"] = draw(uni(290, 450))
    c["phi"] = draw(uni(0.6, 1.6))
    c["dil"] = draw(uni(1.5, 5))
    c["mdot"] = draw(logu(0.05, 0.5))
    c["width"] = draw(logu(0.01, 0.05))
    c["crit"] = draw(st.tuples(uni(3, 5), uni(0.1, 0.4), uni(0.1, 0.5), st.sampled_from([0, 0.01, 0.05])))
    c["rad"] = draw(st.integers(0, 3)) == 0
    c["energy"] = draw(st.integers(0, 4)) > 0
    c["basis"] = draw(st.sampled_from(["molar", "mass"]))
    c["Tw"] = draw(uni(350, 1200))
    return c

@sub("P18", "solved", solve_case, quick=24, thorough=1200, shards=2, tshards=8, floor=0.4,
     rule="burner, freely propagating, counterflow, twin and stagnation flames converged with generated conditions, models and refinement criteria")
def solved(c, rec):
    gas = solution(c["mech"], c["tr"])
    gas.transport_model = c["tr"]
    fuel = {"H2": 1} if c["mech"] == "h2" else {"CO": 0.7, "H2": 0.2, "CH4": 0.1}
    gas.set_equivalence_ratio(c["phi"], fuel, {"O2": 1, "N2": c["dil"]})
    gas.TP = c["T0"], c["P"]
    Yin = gas.Y.copy()
    gas.TPX = c["T0"], c["P"], fuel; Yf = gas.Y.copy()
    gas.TPX = c["T0"], c["P"], {"O2": 1, "N2": c["dil"]}; Yo = gas.Y.copy()
    gas.TPY = c["T0"], c["P"], Yin
    k = c["kind"]
    P = c["P"]; m = c["mdot"] * math.sqrt(P / 1e5)
    try:
        if k == "burner":
            f = ct.BurnerFlame(gas, width=c["width"]); f.burner.mdot = m
        elif k == "free":
            f = ct.FreeFlame(gas, width=c["width"])
        elif k == "diffusion":
            f = ct.CounterflowDiffusionFlame(gas, width=c["width"])
            f.fuel_inlet.mdot = m; f.fuel_inlet.Y = Yf; f.fuel_inlet.T = c["T0"]
            f.oxidizer_inlet.mdot = 2 * m; f.oxidizer_inlet.Y = Yo; f.oxidizer_inlet.T = c["T0"]
        elif k == "premixed-counterflow":
            f = ct.CounterflowPremixedFlame(gas, width=c["width"]); f.reactants.mdot = m; f.products.mdot = 0.6 * m
        elif k == "twin":
            f = ct.CounterflowTwinPremixedFlame(gas, width=c["width"]); f.reactants.mdot = 2 * m
        else:
            f = ct.ImpingingJet(gas, width=c["width"]); f.inlet.mdot = m
            f.surface.T = c["Tw"]
        f.transport_model = c["tr"]
        f.soret_enabled = c["soret"] and c["tr"] == "multicomponent"
        if c["tr"] == "mixture-averaged":
            f.flux_gradient_basis = c["basis"]
        f.radiation_enabled = c["rad"] and k != "free"
        c["energy"] = c["energy"] or k != "burner"
        f.set_refine_criteria(c["crit"][0], c["crit"][1], c["crit"][2], min(c["crit"][3], c["crit"][1] / 3, c["crit"][2] / 3))
        f.set_max_grid_points(f.flame, 250)
        if k in ("stagnation", "impinging"):
            f.set_initial_guess(products="equil" if k == "stagnation" else "inlet")
        if not c["energy"]:
            f.energy_enabled = False
            zp = [0, 0.2, 1]; tp = [c["T0"], 1200, 1500]
            f.set_initial_guess()
            f.flame.set_fixed_temp_profile(zp, tp)
        f.solve(loglevel=0, auto=False)
    except ct.CanteraError as e:
        rec.skip("no convergence")
    fl = f.flame
    z = f.grid; n = len(z); T = f.T; Y = f.Y
    rec.hit(k); rec.label(f"points {n//30*30}+")
    # steady residual of the converged solution, in an independent evaluation
    S = {"u": f.velocity, "V": f.spread_rate, "T": T, "L": f.L if hasattr(f, "L") else np.zeros(n), "E": np.zeros(n), "Uo": np.zeros(n), "Y": Y.T.copy()}
    S["L"] = np.array(f.profile(fl, "lambda"))
    o = dict(gas=gas, surf=None, z=np.array(z), ns=gas.n_species, S=S)
    cc = dict(n=n, P=fl.P, tr=c["tr"], flow={"burner": "unstrained", "free": "free"}.get(k, "axi"))
    rec.close("pressure", fl.P, P, 1e-12, 0, "flame.P")
    ld, rd = f.domains[0], f.domains[-1]
    o["yl"], o["Tl"], o["ml"], o["Vl"] = ld.Y, ld.T, ld.mdot, ld.spread_rate
    cc["left"] = "inlet"
    if isinstance(rd, ct.Inlet1D): cc["right"] = "inlet"; o["yr"], o["Tr"], o["mr"], o["Vr"] = rd.Y, rd.T, rd.mdot, rd.spread_rate
    elif isinstance(rd, ct.Outlet1D): cc["right"] = "outlet"
    elif isinstance(rd, ct.SymmetryPlane1D): cc["right"] = "symmetry"
    else: cc["right"] = "surface"; o["Tr"] = rd.T
    if k == "free":
        o["zfix"], o["Tfix"] = f.fixed_temperature_location, f.fixed_temperature
    # inlet values are those that were given
    wl = Yf if k == "diffusion" else Yin
    rec.close("inlet composition", ld.Y, wl, 1e-9, 1e-12, "left inlet Y"); rec.close("inlet T", ld.T, c["T0"], 1e-12, 0, "left inlet T")
    pruned = c["crit"][3] > 0
    if np.any(S["V"] != 0): rec.hit("strained")
    f.eval(0.0)
    names = fl.component_names
    got = np.array([[f.work_value(fl, nm, j) for nm in names] for j in range(n)])
    emis = (0.0, 0.0) if f.radiation_enabled else None
    R, A = reference(cc, o, emis, f.soret_enabled, c["basis"] if c["tr"] == "mixture-averaged" else "molar", False)
    if not c["energy"]:
        zz = (z - z[0]) / (z[-1] - z[0])
        R["T"] = T - np.interp(zz, zp, tp); A["T"] = T.copy()
    R["Y"] = R["Y"]
    for i, eq in enumerate(["u", "V", "T", "L"]):
        e = abs(got[:, i] - R[eq]) - 1e-6 * A[eq] - 1e-8
        if len(e):
            j = int(np.argmax(e))
            rec.close(f"converged {eq} residual", got[j, i], R[eq][j], 1e-6, 1e-6 * A[eq][j] + 1e-8, f"{k} at point {j} of {n}")
    # size of the residual relative to the terms of the equation: the solution is steady
    if not pruned:
        for eq in ("u", "V", "T", "L"):
            q = abs(R[eq]) / (A[eq] + 1e-6 * max(A[eq].max(), 1e-300) + 1e-9)
            j = int(np.argmax(q))
            rec.check(f"steady {eq}", q[j] < 2e-2, f"{k}: residual {R[eq][j]:.3g} of terms {A[eq][j]:.3g} at point {j} of {n}, {c['tr']}")
    # mass conservation and elements
    gas_rho = f.density
    mf = gas_rho * f.velocity
    if k in ("burner", "free"):
        rec.close("mass flux", mf, np.full(n, mf[0]), 1e-5, 0, f"{k}: rho u varies")
        if k == "burner":
            rec.close("mass flux given", mf[0], m, 1e-6, 0, "burner mdot")
        gas.TPY = c["T0"], P, wl
        for e in gas.element_names:
            a = np.array([gas.n_atoms(s, e) for s in gas.species_names]) * gas.atomic_weight(e) / gas.molecular_weights
            if wl @ a > 0:
                rec.close("element flux", Y[:, -1] @ a, wl @ a, 3e-2 if c["crit"][1] < 0.25 and c["crit"][2] < 0.25 else 6e-2, 1e-6, f"{k}: mass fraction of {e} at the outlet, {c['tr']}, {n} points")
    if not f.radiation_enabled and k == "free":
        gas.TPY = c["T0"], P, wl; h0 = gas.enthalpy_mass; gas.TPY = T[-1], P, Y[:, -1]; h1 = gas.enthalpy_mass
        rec.close("adiabatic", h1, h0, 0, 0.03 * gas.cp_mass * (T[-1] - T[0]), f"free flame enthalpy, {n} points")
    rec.close("mass fractions", Y.sum(0), np.ones(n), 2e-3, 0, f"{k}: sum of Y")
    rec.check("bounds", Y.min() > -1e-6, f"{k}: {Y.min()}")
    if k not in ("burner",):
        rec.close("boundary T", T[0], ld.T, 1e-6, 0, k)
    if cc["right"] in ("inlet", "surface"):
        rec.close("boundary T right", T[-1], o["Tr"], 1e-6, 0, k)
        rec.check("no slip", abs(S["V"][-1]) < 1e-6 or cc["right"] == "inlet", f"{S['V'][-1]}")
    if cc["right"] == "inlet":
        rec.close("right mass flux", -mf[-1], rd.mdot, 1e-5, 0, k)
    if cc["flow"] == "axi":
        rec.close("left mass flux", mf[0], m * (2 if k == "twin" else 1), 1e-5, 0, k)
        L = S["L"]; rec.close("pressure eigenvalue", L, np.full(n, L[0]), 1e-5, 1e-9, f"{k}: lambda varies")
