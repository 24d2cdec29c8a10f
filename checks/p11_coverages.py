"""P11: time integration and steady state of surface coverages.
advance: advance_coverages against an independent stiff integrator of the rate equations; site and gas invariants.
steady: advance_coverages_to_steady_state leaves no net production on the surface and conserves sites.
several: surfaces advanced together in one problem behave as each of them alone."""
import copy, json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from scipy.integrate import solve_ivp
from vp import sub
from gen import uni, logu, fractions
import mechgen, cxx

@st.composite
def case(draw, n=8):
    m = draw(mechgen.surf_mech(kinds=("surface",), nmin=1, nmax=n, orders=False))
    for r in m["yaml"]["surf-reactions"]:
        # (rates that do not vanish with the coverage make the problem ill-posed)
        for k, d in r.get("coverage-dependencies", {}).items():
            i = "m" if isinstance(d, dict) else 1
            d[i] = float(math.ceil(abs(d[i])))
    return {"m": m["yaml"], "ns": m["ns"], "T": draw(uni(300, 1500)), "P": draw(logu(1e2, 1e6)), "X": draw(fractions(m["ng"])), "th": draw(fractions(m["ns"])),
            "th2": draw(fractions(m["ns"])), "dt": draw(st.sampled_from([1e-2, 0.3, 1.0, 10.0, 1e3])), "split": draw(uni(0.05, 0.95)), "site": draw(logu(0.1, 10)),
            "covT": draw(st.booleans())}

def load(c, rec, name="surf", src=None):
    if c.get("lib") is not None:
        f, n, sp = LIBS[c["lib"]]
        s = ct.Interface(f, n)
        g = s.adjacent["gas"]
        g.TPX = c["T"], c["P"], dict(zip(sp, c["X"]))
        s.TP = c["T"], c["P"]
        s.coverages = c["th"][:s.n_species]
        return s, g
    try:
        s = ct.Interface(yaml=src or json.dumps(c["m"]), name=name)
    except ct.CanteraError as e:
        if "Undeclared duplicate" in str(e):
            rec.skip("generated the same reaction twice")
        raise
    g = s.adjacent["gas"]
    g.TPX = c["T"], c["P"], c["X"]
    s.TP = c["T"], c["P"]
    s.coverages = c["th"]
    return s, g

def rhs(s):
    sizes = np.array([sp.size for sp in s.species()])
    ns, G = s.n_species, s.site_density
    sl = slice(s.kinetics_species_index(s.species_names[0]), s.kinetics_species_index(s.species_names[0]) + ns)
    def f(t, y):
        s.coverages = y
        return s.net_production_rates[sl] * sizes / G
    return f, sl, sizes

def timescale(s):
    f, sl, sizes = rhs(s)
    y = s.coverages
    scale = np.abs(f(0, y)).max()
    gross = ((s.creation_rates + s.destruction_rates)[sl] * sizes).max() / s.site_density
    s.coverages = np.ones(len(y)) / len(y)
    gross = max(gross, ((s.creation_rates + s.destruction_rates)[sl] * sizes).max() / s.site_density)
    s.coverages = y
    return scale, gross

def reference(s, y0, dt):
    f, sl, sizes = rhs(s)
    n = [0]
    def g(t, y):
        n[0] += 1
        if n[0] > 8000:
            return np.zeros(len(y))
        return f(t, y)
    r = solve_ivp(g, (0, dt), y0, method="BDF", rtol=1e-7, atol=1e-11)
    return r.y[:, -1] if r.success and n[0] <= 8000 else None

@sub("P11", "advance", case, quick=600, thorough=20000, shards=2, tshards=8, floor=0.6,
     rule="generated surface mechanisms whose coverages change by more than 1e-3 over the interval")
def advance(c, rec):
    s, g = load(c, rec)
    scale, gross = timescale(s)
    if not (scale > 1e-30 and np.isfinite(gross)):
        rec.skip("nothing happens")
    dt = c["dt"] / scale
    if gross * dt > 1e5:
        rec.skip("too stiff")
    y0 = s.coverages
    q, _ = load(c, rec)
    q.coverages = y0
    try:
        ref = reference(q, y0, dt)
    except (ct.CanteraError, FloatingPointError, ValueError):
        ref = None
    if ref is None or not np.all(np.isfinite(ref)):
        rec.skip("reference integration failed")
    gas0 = g.T, g.P, g.X.copy()
    TP = s.T, s.P
    try:
        s.advance_coverages(dt, rtol=1e-6, atol=1e-12)
        rough = s.coverages
        s.coverages = y0
        s.advance_coverages(dt, rtol=1e-9, atol=1e-15)
    except ct.CanteraError as e:
        rec.skip("integrator error")
    y = s.coverages
    if np.abs(rough - y).max() > 1e-4:
        rec.skip("ill-conditioned")
    m = f"dt={dt} y0={y0} ref={ref}"
    rec.close("sum of coverages", y.sum(), 1.0, 1e-9, 0, m)
    rec.close("gas", np.hstack([g.T, g.P, g.X]), np.hstack([*gas0]), 0, 0)
    rec.close("surface T and P", [s.T, s.P], list(TP), 0, 0)
    if np.abs(ref - y0).max() > 1e-3:
        rec.hit("changes")
    if ref.min() < -1e-8:
        rec.skip("rates do not vanish with the coverage")
    # conditioning: how far does a small disturbance travel
    pert = np.abs(y0 + 1e-4 * (np.arange(len(y0)) % 2)); pert /= pert.sum()
    try:
        r2 = reference(q, pert, dt)
        amp = np.abs(r2 - ref).max() / 1e-4 if r2 is not None else 1e9
    except (ct.CanteraError, ValueError):
        amp = 1e9
    if amp > 10:
        rec.skip("ill-conditioned")
    rec.close("coverages", y, ref, 0, 3e-4 * max(1, amp), m)
    # two steps
    q.coverages = y0
    for f in (c["split"], 1 - c["split"]):
        try:
            q.advance_coverages(f * dt, rtol=1e-9, atol=1e-15)
        except ct.CanteraError:
            rec.skip("integrator error")
    rec.close("two steps", q.coverages, y, 0, 3e-4 * max(1, amp), m)

LIBS = [("methane_pox_on_pt.yaml", "Pt_surf", ["CH4", "O2", "H2", "H2O", "CO", "CO2", "AR"]), ("ptcombust.yaml", "Pt_surf", ["CH4", "O2", "H2", "H2O", "CO", "CO2", "AR"]),
        ("diamond.yaml", "diamond_100", ["H2", "H", "CH3", "CH4"])]
@st.composite
def lib_case(draw):
    if draw(st.integers(0, 1)):
        return draw(case())
    i = draw(st.integers(0, len(LIBS) - 1))
    f, n, sp = LIBS[i]
    return {"lib": i, "T": draw(uni(600, 1500)), "P": draw(logu(1e3, 1e6)), "X": draw(fractions(len(sp))), "th": draw(st.lists(uni(0.01, 1), min_size=15, max_size=15))}

@sub("P11", "steady", lib_case, quick=600, thorough=20000, shards=2, tshards=8, floor=0.4,
     rule="generated surface mechanisms for which the solver of the steady state succeeds and the rates are not all zero")
def steady(c, rec):
    s, g = load(c, rec)
    gas0 = np.hstack([g.T, g.P, g.X]); TP = [s.T, s.P]
    f, sl, sizes = rhs(s)
    first = (s.creation_rates + s.destruction_rates)[sl].max()
    try:
        s.advance_coverages_to_steady_state()
    except ct.CanteraError as e:
        rec.check("state is reset after a failure", "not available" not in str(e), str(e)[:300])
        rec.skip("no convergence")
    y = s.coverages
    rec.close("sum of coverages", y.sum(), 1.0, 1e-9, 0)
    rec.close("gas", np.hstack([g.T, g.P, g.X]), gas0, 1e-13, 1e-15)
    rec.close("surface T and P", [s.T, s.P], TP, 1e-14, 0)
    rec.check("coverages are not negative", y.min() > -1e-9, y)
    net, gr = s.net_production_rates[sl], (s.creation_rates + s.destruction_rates)[sl]
    if gr.max() > 0:
        rec.hit("active")
    # relative to the throughput of each species
    rec.close("no net production", net, np.zeros(len(net)), 0, 1e-4 * np.maximum(gr, 1e-6 * gr.max()) + 1e-20 + (0 if c.get("lib") else 1e-5 * first), f"coverages {y} gross {gr}")
    if c.get("lib") is None:
        return  # (with rates that all but vanish there can be many such states)
    # applying it again does not move the state
    try:
        s.advance_coverages_to_steady_state()
    except ct.CanteraError as e:
        if "exactly singular" in str(e):
            rec.skip("singular")
        raise
    rec.close("again", s.coverages, y, 1e-3, 1e-6)

@sub("P11", "several", lambda: case(4), quick=250, thorough=6000, shards=1, tshards=6, floor=0.5,
     rule="two surfaces with different site densities and coverages advanced together change by more than 1e-3")
def several(c, rec):
    m = copy.deepcopy(c["m"])
    ph = copy.deepcopy(m["phases"][1]); ph["name"] = "surf2"; ph["site-density"] = ph["site-density"] * c["site"]
    m["phases"].append(ph)
    src = json.dumps(m)
    a, g = load(c, rec, "surf", src)
    b, h = load(c, rec, "surf2", src)
    b.coverages = c["th2"]
    ya, yb = a.coverages, b.coverages
    sc = [timescale(x) for x in (a, b)]
    scale, gross = max(x[0] for x in sc), max(x[1] for x in sc)
    if not (scale > 1e-30 and np.isfinite(gross)):
        rec.skip("nothing happens")
    dt = min(c["dt"], 10.0) / scale
    if gross * dt > 1e5:
        rec.skip("too stiff")
    both, p = cxx.arr(np.hstack([ya, yb]))
    X, px = cxx.arr(g.X)
    import ctypes
    D = ctypes.c_double
    ref = []
    for s, y0 in ((a, ya), (b, yb)):
        try:
            s.advance_coverages(dt, rtol=1e-6, atol=1e-12)
            rough = s.coverages
            s.coverages = y0
            s.advance_coverages(dt, rtol=1e-9, atol=1e-16)
        except ct.CanteraError:
            rec.skip("integrator error")
        if np.abs(rough - s.coverages).max() > 1e-4:
            rec.skip("ill-conditioned")
        ref.append(s.coverages)
    try:
        cxx.ok(cxx.lib().vp_coverages(src.encode(), D(c["T"]), D(c["P"]), px, D(dt), p))
    except cxx.Error as e:
        if "CVODE" in str(e) or "integrat" in str(e).lower():
            rec.skip("integrator error")
        raise
    ref = np.hstack(ref)
    if np.abs(ref - np.hstack([ya, yb])).max() > 1e-3:
        rec.hit("changes")
    rec.close("together", both, ref, 0, 3e-4, f"dt={dt} from {ya} {yb}")
