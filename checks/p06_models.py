"""P06: phase models follow their documented equations.
Oracle: Helmholtz or Gibbs functions written down from the documented equations of state and
excess-property models, differentiated with complex steps; standard states from the documented
species parametrizations.  Non-trivial: a mixture away from its ideal limit."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions
R = ct.gas_constant
H = 1e-30

def grad(f, x):
    """Gradient of a real-analytic function by complex steps."""
    out = np.zeros(len(x))
    for i in range(len(x)):
        z = np.array(x, complex); z[i] += H * max(1.0, abs(x[i])) * 1j
        out[i] = np.imag(f(z)) / (H * max(1.0, abs(x[i])))
    return out

def d1(f, x):
    h = H * max(1.0, abs(x))
    return np.imag(f(complex(x, h))) / h

def eos_of(sp, model):
    q = sp.get("equation-of-state", {})
    if q:
        a = q["a"] if isinstance(q["a"], list) else [q["a"], 0.0]
        return a[0], a[1], q["b"], q.get("acentric-factor", 0.0)
    c = sp["critical-parameters"]
    Tc, Pc, w = c["critical-temperature"], c["critical-pressure"], c["acentric-factor"]
    if model == "Redlich-Kwong":
        return 0.427480233540341 * R**2 * Tc**2.5 / Pc, 0.0, 0.0866403499649577 * R * Tc / Pc, w
    return 0.457235528921382 * R**2 * Tc**2 / Pc, 0.0, 0.0777960739038885 * R * Tc / Pc, w

@st.composite
def cubic_case(draw):
    model = draw(st.sampled_from(["Redlich-Kwong", "Peng-Robinson"]))
    d = draw(gen.cubic(model))
    return {"model": model, "d": d, "T": 1.000031 * draw(uni(*d["T"])), "P": draw(logu(1e6, 5e7)), "X": draw(fractions(d["n"]))}

def add_ref(sp, T):
    return np.array([gen.ref_thermo(s["thermo"], T) for s in sp]).T

@sub("P06", "cubic equations of state", cubic_case, quick=900, thorough=40000, shards=2, tshards=8, floor=0.25,
     rule="Redlich-Kwong and Peng-Robinson mixtures with given or critical-point coefficients, binary coefficients and acentric factors of both ranges")
def cubic(c, rec):
    y = c["d"]["yaml"]; sp = y["species"]; n = len(sp); model = c["model"]
    p = ct.Solution(yaml=json.dumps(y))
    T, P = c["T"], c["P"]
    X = np.array(c["X"])
    p.TPX = T, P, X
    X = p.X
    v = p.volume_mole
    names = [s["name"] for s in sp]
    k = np.array([eos_of(s, model) for s in sp])
    a0, a1, b, w = k.T
    A0 = np.sqrt(np.outer(a0, a0)); A1 = np.sqrt(np.outer(a1, a1))
    for i in range(n):
        A0[i, i], A1[i, i] = a0[i], a1[i]
    for i, s in enumerate(sp):
        for o, val in s.get("equation-of-state", {}).get("binary-a", {}).items():
            j = names.index(o)
            val = val if isinstance(val, list) else [val, 0.0]
            A0[i, j] = A0[j, i] = val[0]; A1[i, j] = A1[j, i] = val[1]
    if model == "Peng-Robinson":
        kap = np.where(w <= 0.491, 0.37464 + 1.54226 * w - 0.26992 * w**2, 0.374642 + 1.487503 * w - 0.164423 * w**2 + 0.016666 * w**3)
        Tc = a0 * 0.0777960739038885 / (b * R * 0.457235528921382)
        if "critical-parameters" in sp[0]:
            Tc = np.array([s["critical-parameters"]["critical-temperature"] for s in sp])
        def ares(T, V, n):
            rt = 1 + kap * (1 - np.sqrt(T / Tc))
            # the square root of alpha_i alpha_j is positive
            al = np.where(rt.real < 0, -rt, rt)
            z = n * al
            a = z @ A0 @ z; B = n @ b; s2 = math.sqrt(2)
            return -n.sum() * R * T * np.log(1 - B / V) - a / (2 * s2 * B) * np.log((V + (1 + s2) * B) / (V + (1 - s2) * B))
    else:
        def ares(T, V, n):
            a = n @ (A0 + A1 * T) @ n; B = n @ b
            return -n.sum() * R * T * np.log(1 - B / V) - a / (np.sqrt(T) * B) * np.log(1 + B / V)
    w0 = add_ref(sp, T)
    pref = sp[0]["thermo"].get("reference-pressure", 101325.0)
    cc = complex
    Xc = X.astype(complex)
    A = float(np.real(ares(cc(T), cc(v), Xc)))
    Pres = -d1(lambda V: ares(cc(T), V, Xc), v)
    Sres = -d1(lambda t: ares(t, cc(v), Xc), T)
    mures = grad(lambda x: ares(cc(T), cc(v), x), X)
    scale = abs(A) + T * abs(Sres) + R * T
    nz = X > 1e-12
    # at the same volume, the reference is the ideal gas at the pressure RT/v
    sid = w0[2][nz] - np.log(X[nz] * R * T / v / pref)
    tag = model + (":critical" if "critical-parameters" in sp[0] else "")
    Z = P * v / (R * T)
    rec.close(f"{tag}:pressure", R * T / v + Pres, p.P, 1e-9, 1e-9 * (R * T / v + abs(Pres)) + 1e-7 * P, f"T={T} v={v}")
    s = float(X[nz] @ sid) * R + Sres
    u = float(X @ (w0[1] - 1)) * R * T + A + T * Sres
    rec.close(f"{tag}:entropy", p.entropy_mole, s, 1e-9, 3e-7 * (R * 10 + abs(Sres)), f"T={T} v={v} Z={Z}")
    # the library's enthalpies take the pressure as it was requested
    rec.close(f"{tag}:internal energy", p.int_energy_mole, u, 1e-9, 3e-7 * (scale + R * T * (10 + np.abs(w0[1]).max() * 1e-2)), f"T={T} v={v} Z={Z}")
    rec.close(f"{tag}:enthalpy", p.enthalpy_mole, u + p.P * v, 1e-9, 3e-7 * (scale + R * T * (10 + np.abs(w0[1]).max() * 1e-2)), f"T={T} v={v} Z={Z}")
    mu = np.zeros(n)
    mu[nz] = (w0[1] - w0[2])[nz] * R * T + R * T * np.log(X[nz] * R * T / v / pref) + mures[nz]
    rec.close(f"{tag}:chemical potential", p.chemical_potentials[nz], mu[nz], 1e-9, 3e-7 * (scale + np.abs(mures[nz]) + R * T * 10 + R * T * np.abs(w0[1][nz]) * 1e-2), f"T={T} v={v} Z={Z}")
    if abs(Z - 1) > 0.01:
        rec.hit(tag + (" mixture" if nz.sum() > 1 else " pure"))
    else:
        rec.label("nearly ideal")
    if n == 1 and "critical-parameters" in sp[0]:
        q = sp[0]["critical-parameters"]
        rec.close(f"{tag}:critical T", p.critical_temperature, q["critical-temperature"], 1e-5)
        rec.close(f"{tag}:critical P", p.critical_pressure, q["critical-pressure"], 1e-5)

# ------------------------------------------------------------------ solutions
def molar_volume(q, T, mw):
    """V(T) and dV/dT of an incompressible species."""
    m = q["model"]
    if m == "constant-volume":
        if "molar-volume" in q:
            return q["molar-volume"] + 0 * T
        if "molar-density" in q:
            return 1 / q["molar-density"] + 0 * T
        return mw / q["density"] + 0 * T
    c = q["data"]
    f = c[0] + c[1] * T + c[2] * T**2 + c[3] * T**3
    return mw / f if m.startswith("density") else f

def excess(ph, names):
    """G^E/(RT) and H^E/(R) of a mixture as functions of (T, mole numbers)."""
    ix = {s: i for i, s in enumerate(names)}
    inter = ph.get("interactions", [])
    def he(x, key, T):
        N = x.sum()
        X = x / N
        out = 0
        for q in inter:
            i, j = (ix[s] for s in q["species"])
            co = q.get(key, [])
            if ph["thermo"] == "Margules":
                for m, a in enumerate(co):
                    out = out + N * X[i] * X[j] * a * X[j]**m
            else:
                for m, a in enumerate(co):
                    out = out + N * X[i] * X[j] * a * (X[i] - X[j])**m
        return out
    return he

@st.composite
def soln_case(draw):
    model = draw(st.sampled_from(["ideal-condensed", "ideal-solution-VPSS", "Margules", "Redlich-Kister", "binary-solution-tabulated", "fixed-stoichiometry"]))
    d = draw(gen.MODELS[model]())
    return {"model": model, "d": d, "T": 1.000031 * draw(uni(*d["T"])), "P": draw(logu(*d["P"])), "X": draw(fractions(d["n"], zeros=False))}

@sub("P06", "solutions", soln_case, quick=900, thorough=40000, shards=2, tshards=8, floor=0.7,
     rule="condensed solutions: incompressible standard states, ideal, Margules, Redlich-Kister and tabulated excess properties, standard concentrations")
def soln(c, rec):
    y = c["d"]["yaml"]; sp = y["species"]; n = len(sp); model = c["model"]; ph = y["phases"][0]
    p = ct.Solution(yaml=json.dumps(y))
    T, P = c["T"], c["P"]
    p.TPX = T, P, c["X"]
    X = p.X; mw = p.molecular_weights
    w0 = add_ref(sp, T)
    pref = sp[0]["thermo"].get("reference-pressure", 101325.0)
    V = np.array([molar_volume(s["equation-of-state"], T, m) for s, m in zip(sp, mw)])
    dV = np.array([d1(lambda t: molar_volume(s["equation-of-state"], t, m), T) for s, m in zip(sp, mw)])
    tab = model == "binary-solution-tabulated"
    x = X[0] if n else 0
    cp0, h0, s0 = w0[0], w0[1].copy(), w0[2].copy()
    def T_(s):
        return f"{model}:{s}"
    if tab:
        t = ph["tabulated-thermo"]; xs = t["mole-fractions"]
        def tabv(col):
            # straight lines between points; beyond them the nearest segment or the end value
            return np.interp(x, xs, col)
        inside = xs[0] <= x <= xs[-1]
        h0[0] = h0[0] + tabv(t["enthalpy"]) / (R * T)
        # (standard concentrations enter with a factor R/F, which is below the tolerance)
        s0[0] = s0[0] + tabv(t["entropy"]) / R + math.log(x / X[1])
        if "molar-volume" in t:
            vt, xx = np.array(t["molar-volume"]), np.array(xs)
            dv = np.empty(len(xx))
            dv[0], dv[-1] = (vt[1] - vt[0]) / (xx[1] - xx[0]), (vt[-1] - vt[-2]) / (xx[-1] - xx[-2])
            dv[1:-1] = (vt[2:] - vt[:-2]) / (xx[2:] - xx[:-2])
            vm, dv = tabv(vt), tabv(dv)
            V = np.array([vm + (1 - x) * dv, vm - x * dv])
        rec.label("inside the table" if inside else "outside the table")
    dp = (P - pref)
    hs = h0 + (V - T * dV) * dp / (R * T) if model not in ("ideal-condensed", "binary-solution-tabulated", "fixed-stoichiometry") else h0 + V * dp / (R * T)
    ss = s0 - dV * dp / R if model not in ("ideal-condensed", "binary-solution-tabulated", "fixed-stoichiometry") else s0
    ck = np.ones(n, bool)
    sc = 1e-8 * (10 + np.abs(h0) + np.abs(V * dp / (R * T)))
    rec.close(T_("standard h"), p.standard_enthalpies_RT[ck], hs[ck], 1e-9, sc[ck], f"T={T} P={P} {sp[0]['equation-of-state']}")
    rec.close(T_("standard s"), p.standard_entropies_R[ck], ss[ck], 1e-9, 1e-8 * (10 + np.abs(ss[ck])))
    rec.close(T_("standard g"), p.standard_gibbs_RT[ck], (hs - ss)[ck], 1e-9, 2 * sc[ck])
    he = excess(ph, p.species_names)
    if ph.get("interactions"):
        ge = lambda z: (he(z, "excess-enthalpy", T) - T * he(z, "excess-entropy", T)) / (R * T)
        lng = grad(ge, X)
    else:
        lng = np.zeros(n)
    mag = np.abs(lng) + 1
    rec.close(T_("activity coefficients"), np.log(p.activity_coefficients), lng, 1e-8, 1e-8 * mag, f"X={X}")
    if n > 1:
        rec.close(T_("activities"), p.activities, X * np.exp(lng), 1e-7 * mag.max(), 1e-300)
    mu = (hs - ss) * R * T + R * T * (lng + np.log(X))
    rec.close(T_("chemical potentials"), p.chemical_potentials, mu, 1e-9, R * T * (2 * sc + 1e-8 * mag))
    volE = any("volume" in k for i in ph.get("interactions", []) for k in i)
    H_ = float(X @ hs) * R * T; S_ = float(X @ (ss - np.log(X))) * R
    if ph.get("interactions"):
        H_ += he(X, "excess-enthalpy", T); S_ += he(X, "excess-entropy", T)
    if not volE:
        hm = float(X @ np.abs(h0)) * R * T + 10 * R * T
        rec.close(T_("enthalpy"), p.enthalpy_mole, H_, 1e-9, 1e-8 * hm + 1e-8 * float(X @ np.abs(V * dp)))
        rec.close(T_("entropy"), p.entropy_mole, S_, 1e-9, 1e-7 * R * 10)
        vm = float(X @ V)
        if tab and "molar-volume" in t:
            vm = float(np.interp(x, xs, t["molar-volume"]))
        rec.close(T_("volume"), p.volume_mole, vm, 1e-9)
        rec.close(T_("density"), p.density, float(X @ mw) / vm, 1e-9)
    if lng.any() or model in ("ideal-condensed", "ideal-solution-VPSS", "fixed-stoichiometry", "binary-solution-tabulated"):
        rec.hit(model)

# ------------------------------------------------------------------ surfaces
def dep_value(q, key, th):
    """Coverage-dependent correction: key is 'enthalpy' or 'entropy'."""
    m = q["model"]
    if m == "linear":
        return q[key] * th
    if m == "polynomial":
        return sum(a * th**(i + 1) for i, a in enumerate(q[key + "-coefficients"]))
    if m == "piecewise-linear":
        lo, hi, x = q[key + "-low"], q[key + "-high"], q[key + "-change"]
        return lo * th if th <= x else lo * x + hi * (th - x)
    vals = q["enthalpies" if key == "enthalpy" else "entropies"]
    return float(np.interp(th, q[key + "-coverages"], vals))

@st.composite
def surf_case(draw):
    model = draw(st.sampled_from(["ideal-surface", "coverage-dependent-surface", "coverage-dependent-surface"]))
    d = draw(gen.MODELS[model]())
    return {"model": model, "d": d, "T": 1.000031 * draw(uni(*d["T"])), "P": draw(logu(*d["P"])), "X": draw(fractions(d["n"], zeros=False)), "P2": draw(logu(*d["P"]))}

@sub("P06", "surfaces", surf_case, quick=900, thorough=40000, shards=2, tshards=8, floor=0.8,
     rule="ideal and coverage-dependent surfaces: coverages, concentrations, every dependency model, reference coverage")
def surf(c, rec):
    y = c["d"]["yaml"]; sp = y["species"]; n = len(sp); model = c["model"]; ph = y["phases"][0]
    p = ct.Interface(yaml=json.dumps(y))
    T, P = c["T"], c["P"]
    def T_(s):
        return f"{model}:{s}"
    p.TP = T, P
    th = np.array(c["X"])
    p.coverages = th
    th = th / th.sum()
    size = np.array([s.get("sites", 1) for s in sp])
    g0 = ph["site-density"]
    rec.close(T_("site density"), p.site_density, g0, 1e-12)
    rec.close(T_("coverages"), p.coverages, th, 1e-12, 1e-300)
    rec.close(T_("concentrations"), p.concentrations, th * g0 / size, 1e-11, 1e-300)
    rec.close(T_("mole fractions"), p.X, (th / size) / (th / size).sum(), 1e-11, 1e-300)
    w0 = add_ref(sp, T)
    h, s, cp = w0[1] * R * T, w0[2] * R, w0[0] * R
    if model.startswith("coverage"):
        T0 = 298.15
        ref = ph["reference-state-coverage"]
        names = p.species_names
        for k, q in enumerate(sp):
            for o, d in q.get("coverage-dependencies", {}).items():
                t = th[names.index(o)]
                h[k] += dep_value(d, "enthalpy", t)
                s[k] += dep_value(d, "entropy", t)
                a, b = d.get("heat-capacity-a", 0.0), d.get("heat-capacity-b", 0.0)
                cp[k] += (a * math.log(T) + b) * t**2
                h[k] += (a * (T * math.log(T) - T - T0 * math.log(T0) + T0) + b * (T - T0)) * t**2
                s[k] += (a * (math.log(T)**2 - math.log(T0)**2) / 2 + b * math.log(T / T0)) * t**2
        s += R * math.log(ref)
    rec.close(T_("standard h"), p.standard_enthalpies_RT, h / (R * T), 1e-9, 1e-8 * (10 + np.abs(w0[1])))
    rec.close(T_("standard s"), p.standard_entropies_R, s / R, 1e-9, 1e-7)
    rec.close(T_("standard cp"), p.standard_cp_R, cp / R, 1e-9, 1e-8)
    g = h - T * s
    sc = 1e-8 * R * T * (20 + np.abs(w0[1]))
    act = th
    rec.close(T_("chemical potentials"), p.chemical_potentials, g + R * T * np.log(act), 1e-9, sc, f"th={th}")
    rec.close(T_("partial molar h"), p.partial_molar_enthalpies, h, 1e-9, sc)
    rec.close(T_("partial molar cp"), p.partial_molar_cp, cp, 1e-9, 1e-7 * R)
    rec.close(T_("partial molar s"), p.partial_molar_entropies, s - R * np.log(act), 1e-9, 1e-7 * R)
    X = (th / size) / (th / size).sum()
    rec.close(T_("enthalpy"), p.enthalpy_mole, float(X @ h), 1e-9, float(X @ sc))
    rec.close(T_("entropy"), p.entropy_mole, float(X @ (s - R * np.log(act))), 1e-9, 1e-7 * R)
    before = p.chemical_potentials
    p.TP = T, c["P2"]
    rec.close(T_("independent of pressure"), p.chemical_potentials, before, 1e-12)
    rec.hit(model + (" sites" if (size > 1).any() else ""))

# ------------------------------------------------------------------ electrolytes
def sigma(y):
    # 3/y^3 ((1+y) - 2 ln(1+y) - 1/(1+y))
    return 3 / y**3 * ((1 + y) - 2 * np.log(1 + y) - 1 / (1 + y)) if y > 0.02 else 1 - 1.5 * y + 1.8 * y * y - 2 * y**3

@st.composite
def dh_case(draw):
    d = draw(gen.debye_huckel())
    return {"d": d, "T": 1.000031 * draw(uni(*d["T"])), "P": draw(logu(*d["P"]))}

def unit(s):
    return float(s.split()[0]) if isinstance(s, str) else s

@sub("P06", "Debye-Huckel", dh_case, quick=500, thorough=20000, shards=1, tshards=8, floor=0.3,
     rule="ions and neutral solutes with every documented form of the activity coefficients")
def dh(c, rec):
    y = c["d"]["yaml"]; sp = y["species"]; n = len(sp); ph = y["phases"][0]
    ad = ph["activity-data"]; form = ad["model"]
    p = ct.Solution(yaml=json.dumps(y))
    T, P = c["T"], c["P"]
    p.TPX = T, P, gen.molal_X(c["d"], p.molecular_weights)
    X = p.X; Mo = p.molecular_weights[0] * 1e-3
    m = X / (Mo * X[0]); m[0] = 0
    z = p.charges
    if ad["A_Debye"] == "variable":
        rec.skip("A_Debye(T, P): see P01")
    A = unit(ad["A_Debye"])
    B = unit(ad["B_Debye"])
    I = 0.5 * float(m @ z**2)
    sI = math.sqrt(I)
    names = p.species_names
    a0 = ad["default-ionic-radius"]
    a = np.array([s.get("Debye-Huckel", {}).get("ionic-radius", a0) for s in sp])
    if I > 25:
        rec.skip("limit of the ionic strength")
    beta = np.zeros((n, n))
    for q in ad.get("beta", []):
        i, j = (names.index(s) for s in q["species"])
        beta[i, j] = beta[j, i] = q["beta"]
    ion = z != 0
    lg = np.zeros(n)
    lna0 = (X[0] - 1) / X[0]
    if form == "dilute-limit":
        lg = -z**2 * A * sI
        lna0 += 2 * A * Mo / 3 * I**1.5
    elif form.startswith("B-dot"):
        if form == "B-dot-with-common-a":
            a[:] = a0
        # (neutral species have forms of their own)
        lg[ion] = (-z**2 * A * sI / (1 + B * a * sI))[ion] + math.log(10) * ad["B-dot"] * I
    elif form == "beta_ij":
        a[:] = a0
        lg = -z**2 * A * sI / (1 + B * a * sI) + 2 * beta @ m
        lna0 += 2 * A * Mo / 3 * I**1.5 * sigma(B * a0 * sI) - Mo * float(m @ beta @ m)
    else:
        a[:] = a0
        lg = -z**2 * A / 3 * sI / (1 + B * a * sI) - 2 * z**2 * A / 3 * np.log(1 + B * a * sI) / (B * a) + 2 * beta @ m
        lna0 += 2 * A * Mo / 3 * I**1.5 / (1 + B * a0 * sI) - Mo * float(m @ beta @ m)
    act = p.activities
    on = (m > 1e-10)
    if form.startswith("B-dot"):
        on &= ion
    else:
        rec.close(f"{form}:water activity", math.log(act[0]), lna0, 1e-7, 1e-9, f"I={I} X0={X[0]}")
    rec.close(f"{form}:activity coefficients", np.log(act[on] / m[on]), lg[on], 1e-7, 1e-8, f"{[s for s, o in zip(names, on) if o]} I={I}")
    rec.hit(form)

def g_fun(x):
    if abs(x) < 0.02:
        return 1 - 2 * x / 3 + x * x / 4 - x**3 / 15 + x**4 / 72
    return 2 * (1 - (1 + x) * np.exp(-x)) / x**2

def J(x):
    """Pitzer's approximation (1975, eq. 47) of the integral for mixing ions of different charge."""
    return x / (4 + 4.581 * x**-0.7237 * np.exp(-0.0120 * x**0.528))

@st.composite
def pitzer_case(draw):
    d = draw(gen.hmw())
    return {"d": d, "T": 1.000031 * draw(uni(*d["T"])), "P": draw(logu(*d["P"])), "scale": draw(logu(1e-2, 1))}

@sub("P06", "Pitzer", pitzer_case, quick=500, thorough=20000, shards=1, tshards=8, floor=0.25,
     rule="electrolytes with constant, linear and complex coefficients, neutral solutes, ternary interactions and asymmetric mixing")
def pitzer(c, rec):
    y = c["d"]["yaml"]; sp = y["species"]; n = len(sp); ph = y["phases"][0]
    ad = ph["activity-data"]
    if ad["A_Debye"] == "variable":
        rec.skip("A_Debye(T, P): see P01")
    T, P = c["T"], c["P"]
    p = ct.Solution(yaml=json.dumps(y))
    molal = gen.molal_X(c["d"], p.molecular_weights)
    p.TPX = T, P, molal
    X = p.X.copy()
    X[1:] *= c["scale"]; X /= X.sum()
    p.TPX = T, P, X
    X = p.X; Mo = p.molecular_weights[0] * 1e-3
    m = X / (Mo * X[0]); m[0] = 0
    z = p.charges
    names = p.species_names
    Tr = 298.15
    tm = ad["temperature-model"]
    def val(q):
        q = q if isinstance(q, list) else [q]
        if len(q) == 1:
            return q[0]
        if tm == "linear":
            return q[0] + q[1] * (T - Tr)
        q0, q1, q2, q3, q4 = q
        return q0 + q3 * (1 / T - 1 / Tr) + q4 * math.log(T / Tr) + q1 * (T - Tr) + q2 * (T**2 - Tr**2)
    Aphi = unit(ad["A_Debye"]) / 3
    b = 1.2
    pairs, theta, tern, lam, mu = [], {}, [], [], []
    for q in ad["interactions"]:
        k = [names.index(s) for s in q["species"]]
        zz = z[k]
        if "beta0" in q:
            pairs.append((k[0], k[1], val(q["beta0"]), val(q["beta1"]), val(q["beta2"]), q["alpha1"], q.get("alpha2", 0.0),
                          val(q["Cphi"]) / (2 * math.sqrt(abs(zz[0] * zz[1])))))
        elif "theta" in q:
            theta[tuple(sorted(k))] = val(q["theta"])
        elif "psi" in q or "zeta" in q:
            tern.append((k, val(q.get("psi", q.get("zeta")))))
        elif "lambda" in q:
            lam.append((k, val(q["lambda"])))
        elif "mu" in q:
            mu.append((k[0], val(q["mu"])))
    ions = [k for k in range(n) if z[k]]
    mix = [(i, j) for i in ions for j in ions if i < j and z[i] * z[j] > 0]
    asym = any(z[i] != z[j] for i, j in mix)
    def Eth(zi, zj, I):
        if zi == zj:
            return 0.0
        x = lambda a, c: 6 * abs(a * c) * 0.392 * np.sqrt(I)   # A_phi at 25 C
        return abs(zi * zj) / (4 * I) * (J(x(zi, zj)) - J(x(zi, zi)) / 2 - J(x(zj, zj)) / 2)
    def G(m):
        I = 0.5 * (m @ z**2); sI = np.sqrt(I); Z = m @ np.abs(z)
        q = -4 * Aphi * I / b * np.log(1 + b * sI)
        for i, j, b0, b1, b2, a1, a2, C in pairs:
            B = b0 + b1 * g_fun(a1 * sI) + (b2 * g_fun(a2 * sI) if a2 else 0.0)
            q = q + m[i] * m[j] * (2 * B + Z * C)
        for i, j in mix:
            q = q + 2 * m[i] * m[j] * (theta.get((i, j), 0.0) + Eth(z[i], z[j], I))
        for k, v in tern:
            q = q + m[k[0]] * m[k[1]] * m[k[2]] * v
        for k, v in lam:
            q = q + (2 if k[0] != k[1] else 1) * m[k[0]] * m[k[1]] * v
        for k, v in mu:
            q = q + m[k]**3 * v
        return q
    I = 0.5 * float(m @ z**2)
    if I < 1e-9 or I > 100:
        rec.skip("ionic strength")
    dG = grad(G, m.astype(complex))
    lna0 = -Mo * (m.sum() + float(m @ dG) - G(m))
    act = p.activities
    T_ = lambda s: f"{'neutral ' if any(z[1:] == 0) else ''}{'asymmetric ' if asym else ''}{s}"
    tol = 1e-8
    # (the coefficients are cropped: [-5, 15] for ions)
    if np.any(np.abs(dG) > 4.5) or abs(lna0 - math.log(X[0])) > 2.5:
        rec.skip("cropped activity coefficients")
    on = m > 1e-10
    rec.close(T_("water activity"), math.log(act[0]), lna0, 1e-7, tol * max(1, Mo * m.sum()), f"I={I} X0={X[0]} m={m}")
    rec.close(T_("activity coefficients"), np.log(act[on] / m[on]), dG[on], 1e-7, tol, f"{[s for s, o in zip(names, on) if o]} I={I} m={m}")
    rec.hit(tm + (" asymmetric" if asym else "") + (" neutral" if any(z[1:] == 0) else ""))
