"""Generators shared by the checks: numbers, species, phases, states."""
import math
from hypothesis import strategies as st

R = 8314.46261815324
OneAtm = 101325.0

def sig(x, n=7):
    return float(f"{x:.{n}g}")

def uni(lo, hi, n=100000, digits=7):
    """Uniform on a grid in [lo, hi]; shrinks to lo."""
    return st.integers(0, n).map(lambda i: sig(lo + (hi - lo) * i / n, digits))

def logu(lo, hi, n=100000, digits=6):
    a, b = math.log(lo), math.log(hi)
    return st.integers(0, n).map(lambda i: sig(math.exp(a + (b - a) * i / n), digits))

def signed(s):
    return st.tuples(s, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])

@st.composite
def fractions(draw, n, zeros=True, tiny=True):
    """A composition of n species (unnormalized list): generic, with zeros, traces or
    a single dominating species."""
    kind = draw(st.sampled_from(["generic", "generic", "generic"] + (["zeros"] if zeros else [])
                                + (["trace"] if tiny else [])))
    x = [draw(uni(0.02, 1.0, 1000)) for _ in range(n)]
    if kind == "zeros":
        keep = draw(st.integers(0, n - 1))
        for i in range(n):
            if i != keep and draw(st.booleans()):
                x[i] = 0.0
    elif kind == "trace":
        for i in range(n):
            if draw(st.booleans()):
                x[i] = draw(logu(1e-12, 1e-2))
        x[draw(st.integers(0, n - 1))] = 1.0
    s = sum(x)
    return [sig(v / s, 12) for v in x]

# ------------------------------------------------------------------ species thermo
def nasa7_eval(c, T):
    cp = sum(c[i] * T**i for i in range(5))
    h = sum(c[i] * T**i / (i + 1) for i in range(5)) + c[5] / T
    s = c[0] * math.log(T) + sum(c[i] * T**i / i for i in range(1, 5)) + c[6]
    return cp, h, s

def nasa9_eval(c, T):
    cp = c[0] / T**2 + c[1] / T + sum(c[i + 2] * T**i for i in range(5))
    h = (-c[0] / T**2 + c[1] * math.log(T) / T + sum(c[i + 2] * T**i / (i + 1) for i in range(5))
         + c[7] / T)
    s = (-c[0] / (2 * T**2) - c[1] / T + c[2] * math.log(T)
         + sum(c[i + 2] * T**i / i for i in range(1, 5)) + c[8])
    return cp, h, s

def shomate_eval(c, T):
    t = T / 1000
    A, B, C, D, E, F, G = c
    cp = A + B * t + C * t**2 + D * t**3 + E / t**2
    h = A * t + B * t**2 / 2 + C * t**3 / 3 + D * t**4 / 4 - E / t + F   # kJ/mol
    s = A * math.log(t) + B * t + C * t**2 / 2 + D * t**3 / 3 - E / (2 * t**2) + G
    r = R / 1000
    return cp / r, h * 1000 / (r * T), s / r

def zone(Ts, n, T):
    """Index of the polynomial region for T."""
    i = 0
    while i < n - 1 and T > Ts[i + 1]:
        i += 1
    return i

def ref_thermo(th, T):
    """Independent evaluation of a species-thermo mapping: cp/R, h/RT, s/R at the
    reference pressure (SI + kmol units throughout)."""
    m = th["model"]
    if m == "NASA7":
        return nasa7_eval(th["data"][zone(th["temperature-ranges"], len(th["data"]), T)], T)
    if m == "NASA9":
        return nasa9_eval(th["data"][zone(th["temperature-ranges"], len(th["data"]), T)], T)
    if m == "Shomate":
        return shomate_eval(th["data"][zone(th["temperature-ranges"], len(th["data"]), T)], T)
    if m == "constant-cp":
        T0 = th.get("T0", 298.15)
        h0, s0, cp0 = th.get("h0", 0.0), th.get("s0", 0.0), th.get("cp0", 0.0)
        return cp0 / R, (h0 + cp0 * (T - T0)) / (R * T), (s0 + cp0 * math.log(T / T0)) / R
    if m == "piecewise-Gibbs":
        pts = sorted((float(k), v) for k, v in th["data"].items())
        # Constant cp on each interval; h(298.15)=h0; mu given at each point
        Ts = [p[0] for p in pts]
        mu = [p[1] * R * p[0] if th.get("dimensionless") else p[1] for p in pts]
        i0 = Ts.index(298.15)
        n = len(Ts)
        h = [0.0] * n; s = [0.0] * n; cp = [0.0] * (n - 1)
        h[i0] = th.get("h0", 0.0)
        s[i0] = (h[i0] - mu[i0]) / Ts[i0]
        for i in range(i0, n - 1):           # upwards
            Ta, Tb = Ts[i], Ts[i + 1]
            # mu_b = h_a + cp (Tb-Ta) - Tb (s_a + cp ln(Tb/Ta))
            cp[i] = (mu[i + 1] - h[i] + Tb * s[i]) / ((Tb - Ta) - Tb * math.log(Tb / Ta))
            h[i + 1] = h[i] + cp[i] * (Tb - Ta)
            s[i + 1] = s[i] + cp[i] * math.log(Tb / Ta)
        for i in range(i0 - 1, -1, -1):      # downwards
            Ta, Tb = Ts[i], Ts[i + 1]
            cp[i] = (mu[i] - h[i + 1] + Ta * s[i + 1]) / ((Ta - Tb) - Ta * math.log(Ta / Tb))
            h[i] = h[i + 1] + cp[i] * (Ta - Tb)
            s[i] = s[i + 1] + cp[i] * math.log(Ta / Tb)
        if T < Ts[0]:
            k, b = 0, 0
        elif T >= Ts[-1]:
            k, b = n - 2, n - 1
        else:
            k = max(i for i in range(n - 1) if Ts[i] <= T); b = k
        if T < Ts[0]:
            c = cp[0]
        else:
            c = cp[k]
        return (c / R, (h[b] + c * (T - Ts[b])) / (R * T), (s[b] + c * math.log(T / Ts[b])) / R)
    raise ValueError(m)

def _join(ev, lo, hi, Tm, iH, iS, icp):
    """Make region `hi` continuous with `lo` at Tm in cp, h and s."""
    cp1, h1, s1 = ev(lo, Tm)
    cp2, _, _ = ev(hi, Tm)
    hi[icp[0]] += (cp1 - cp2) * icp[1]
    _, h2, s2 = ev(hi, Tm)
    hi[iH[0]] += (h1 - h2) * iH[1](Tm)
    _, _, s2 = ev(hi, Tm)
    hi[iS[0]] += (s1 - s2) * iS[1]
    return hi

@st.composite
def nasa7(draw, Tmin=200.0, Tmax=4000.0, zones=None, hr=40000.0):
    two = draw(st.booleans()) if zones is None else zones == 2
    Tm = draw(st.sampled_from([1000.0, 1000.0, 800.0, 1391.0, 600.0])) if two else Tmax
    lo = [draw(uni(3.5, 10, 5000))] + [draw(uni(-0.6, 1.5, 5000)) / Tm**i for i in range(1, 5)]
    lo += [draw(uni(-hr, hr)), draw(uni(-5, 8, 5000))]
    data = [[sig(v, 9) for v in lo]]
    Ts = [Tmin, Tm]
    if two:
        hi = [0.0] + [draw(uni(-0.15, 0.9, 5000)) / Tmax**i for i in range(1, 5)] + [0.0, 0.0]
        _join(nasa7_eval, data[0], hi, Tm, (5, lambda T: T), (6, 1.0), (0, 1.0))
        data.append([sig(v, 15) for v in hi])
        Ts = [Tmin, Tm, Tmax]
    th = {"model": "NASA7", "temperature-ranges": Ts, "data": data}
    if draw(st.integers(0, 3)) == 0:
        th["reference-pressure"] = draw(st.sampled_from([1e5, 101325.0, 2e5]))
    return th

@st.composite
def nasa9(draw, Tmin=200.0, Tmax=4000.0, hr=40000.0):
    nz = draw(st.integers(1, 3))
    mids = sorted(draw(st.sampled_from([(1000.0,), (700.0,), (1500.0,)]))) if nz == 2 else \
        ([800.0, 1800.0] if nz == 3 else [])
    Ts = [Tmin] + list(mids) + [Tmax]
    data = []
    for z in range(nz):
        Ta, Tb = Ts[z], Ts[z + 1]
        c = [draw(uni(-0.3, 0.6, 5000)) * Ta**2, draw(uni(-0.3, 0.6, 5000)) * Ta,
             draw(uni(4, 10, 5000))] + [draw(uni(-0.3, 0.9, 5000)) / Tb**i for i in range(1, 5)]
        c += [draw(uni(-hr, hr)), draw(uni(-5, 8, 5000))]
        c = [sig(v, 9) for v in c]
        if z:
            _join(nasa9_eval, data[-1], c, Ta, (7, lambda T: T), (8, 1.0), (2, 1.0))
            c = [sig(v, 15) for v in c]
        data.append(c)
    return {"model": "NASA9", "temperature-ranges": Ts, "data": data,
            **({"reference-pressure": 1e5} if draw(st.booleans()) else {})}

@st.composite
def shomate(draw, Tmin=250.0, Tmax=4000.0, hr=300.0):
    two = draw(st.booleans())
    Tm = draw(st.sampled_from([1000.0, 1300.0, 700.0])) if two else Tmax
    tm = Tm / 1000
    lo = [draw(uni(35, 80, 5000)), draw(uni(-4, 12, 5000)) / tm, draw(uni(-4, 10, 5000)) / tm**2,
          draw(uni(-4, 8, 5000)) / tm**3, draw(uni(-0.6, 0.6, 5000)), draw(uni(-hr, hr)), draw(uni(50, 300))]
    data = [[sig(v, 9) for v in lo]]
    Ts = [Tmin, Tm]
    if two:
        x = Tmax / 1000
        hi = [0.0, draw(uni(-2, 9, 5000)) / x, draw(uni(-2, 8, 5000)) / x**2, draw(uni(-2, 6, 5000)) / x**3,
              draw(uni(-0.6, 0.6, 5000)), 0.0, 0.0]
        r = R / 1000
        _join(shomate_eval, data[0], hi, Tm, (5, lambda T: r * T / 1000), (6, r), (0, r))
        data.append([sig(v, 15) for v in hi])
        Ts = [Tmin, Tm, Tmax]
    return {"model": "Shomate", "temperature-ranges": Ts, "data": data,
            **({"reference-pressure": 1e5} if draw(st.booleans()) else {})}

@st.composite
def constcp(draw, hr=3e8):
    d = {"model": "constant-cp", "T0": draw(st.sampled_from([298.15, 300.0, 1000.0])),
         "h0": draw(uni(-hr, hr)), "s0": draw(uni(2e4, 3e5)), "cp0": draw(uni(2e4, 1.5e5))}
    return d

@st.composite
def mu0poly(draw, hr=3e8):
    """piecewise-Gibbs made from a positive constant-cp-per-interval substance."""
    T = [298.15]
    for _ in range(draw(st.integers(1, 3))):
        T.append(sig(T[-1] + draw(uni(40, 300, 1000)), 6))
    if draw(st.booleans()):
        T.insert(0, draw(st.sampled_from([200.0, 250.0, 273.15])))
    h0 = draw(uni(-hr, hr)); s0 = draw(uni(2e4, 2e5))
    i0 = T.index(298.15)
    mu = {298.15: h0 - 298.15 * s0}
    h, s = h0, s0
    for i in range(i0, len(T) - 1):
        cp = draw(uni(2e4, 1.5e5)); a, b = T[i], T[i + 1]
        h += cp * (b - a); s += cp * math.log(b / a); mu[b] = h - b * s
    if i0:
        cp = draw(uni(2e4, 1.5e5)); a, b = 298.15, T[0]
        mu[b] = h0 + cp * (b - a) - b * (s0 + cp * math.log(b / a))
    dim = draw(st.booleans())
    d = {"model": "piecewise-Gibbs", "h0": h0,
         "data": {repr(t): sig(mu[t] / (R * t) if dim else mu[t], 15) for t in T}}
    if dim:
        d["dimensionless"] = True
    return d

def gas_thermo():
    return st.one_of(nasa7(zones=2), nasa7(), nasa9(), shomate(), constcp())

def any_thermo():
    return st.one_of(nasa7(zones=2), nasa7(), nasa9(), shomate(), constcp(), mu0poly())

ELS = ["H", "C", "O", "N", "S", "Cl"]

@st.composite
def composition(draw, els=ELS, maxn=4):
    k = draw(st.integers(1, min(3, len(els))))
    chosen = draw(st.lists(st.sampled_from(els), min_size=k, max_size=k, unique=True))
    return {e: draw(st.integers(1, maxn)) for e in chosen}

@st.composite
def gas_species(draw, nmin=2, nmax=5, thermo=None, els=ELS, prefix="S"):
    n = draw(st.integers(nmin, nmax))
    if thermo is None:
        thermo = gas_thermo()
    pref = draw(st.sampled_from([None, None, 1e5, OneAtm, 2e5]))
    out = []
    for i in range(n):
        th = dict(draw(thermo))
        th.pop("reference-pressure", None)
        if pref:
            th["reference-pressure"] = pref     # one reference pressure per phase
        out.append({"name": f"{prefix}{i}", "composition": draw(composition(els)), "thermo": th})
    return out

def file(phases, species, **extra):
    d = {"phases": phases, "species": species}
    d.update(extra)
    return d

def phase(name, model, species, **kw):
    d = {"name": name, "thermo": model, "species": [s["name"] for s in species]}
    d.update(kw)
    return d

@st.composite
def ideal_gas(draw, **kw):
    sp = draw(gas_species(**kw))
    return {"yaml": file([phase("p", "ideal-gas", sp)], sp), "n": len(sp), "T": (300, 3000), "P": (1e2, 1e8)}

@st.composite
def plasma(draw):
    sp = draw(gas_species(1, 4))
    sp.append({"name": "e", "composition": {"E": 1}, "thermo": draw(constcp())})
    if "reference-pressure" in sp[0]["thermo"]:
        sp[-1]["thermo"]["reference-pressure"] = sp[0]["thermo"]["reference-pressure"]
    ph = phase("p", "plasma", sp)
    ph["electron-energy-distribution"] = {"type": "isotropic",
        "shape-factor": draw(uni(1.0, 2.0, 100)), "mean-electron-energy": draw(st.sampled_from(["1.0 eV", "0.3 eV", "4 eV"])),
        "energy-levels": [0.0, 0.1, 1.0, 10.0]}
    return {"yaml": file([ph], sp), "n": len(sp), "T": (300, 3000), "P": (1e2, 1e7)}

@st.composite
def cubic(draw, model=None):
    model = model or draw(st.sampled_from(["Redlich-Kwong", "Peng-Robinson"]))
    sp = draw(gas_species(1, 4, thermo=st.one_of(nasa7(zones=2), nasa9(), shomate(), constcp())))
    how = draw(st.sampled_from(["coeffs", "critical"]))
    a1sign = draw(st.sampled_from([1, -1]))     # mixed signs have no real geometric mean
    Tcmax = 0
    for s in sp:
        Tc = draw(uni(80, 700, 5000)); Pc = draw(uni(1e6, 2.2e7, 5000)); w = draw(uni(-0.2, 0.9, 1000))
        Tcmax = max(Tc, Tcmax)
        if model == "Redlich-Kwong":
            a = 0.42748 * R**2 * Tc**2.5 / Pc; b = 0.08664 * R * Tc / Pc
        else:
            a = 0.45724 * R**2 * Tc**2 / Pc; b = 0.0778 * R * Tc / Pc
        if how == "critical":
            s["critical-parameters"] = {"critical-temperature": Tc, "critical-pressure": Pc, "acentric-factor": w}
        else:
            eos = {"model": model, "b": sig(b, 8)}
            if model == "Redlich-Kwong":
                a1 = draw(st.one_of(st.just(0.0), uni(0, 2e-4, 1000).map(lambda v: v * a1sign)))
                eos["a"] = [sig(a, 8), sig(a * a1, 8)] if draw(st.booleans()) or a1 else sig(a, 8)
            else:
                eos["a"] = sig(a, 8); eos["acentric-factor"] = w
            s["equation-of-state"] = eos
    if how == "coeffs" and len(sp) > 1:
        for i in range(len(sp)):
            for j in range(i):
                if draw(st.integers(0, 2)) == 0:
                    ai, aj = (sp[k]["equation-of-state"]["a"] for k in (i, j))
                    ai = ai if isinstance(ai, list) else [ai, 0.0]
                    aj = aj if isinstance(aj, list) else [aj, 0.0]
                    f = draw(uni(0.7, 1.1, 1000))
                    v = sig(math.sqrt(ai[0] * aj[0]) * f, 8)
                    if model == "Redlich-Kwong" and draw(st.booleans()):
                        v = [v, sig(draw(uni(-1e-4, 1e-4, 1000)) * v, 8)]
                    sp[i]["equation-of-state"].setdefault("binary-a", {})[sp[j]["name"]] = v
    return {"yaml": file([phase("p", model, sp)], sp), "n": len(sp), "T": (300, 2500), "P": (1e4, 5e7),
            "Tc": Tcmax}

@st.composite
def constvol(draw, sp=None):
    how = draw(st.sampled_from(["molar-volume", "molar-density", "density"]))
    v = draw(uni(0.005, 0.2, 5000))
    if how == "molar-volume":
        return {"model": "constant-volume", "molar-volume": v}
    if how == "molar-density":
        return {"model": "constant-volume", "molar-density": sig(1 / v)}
    return {"model": "constant-volume", "density": draw(uni(300, 8000, 5000))}

@st.composite
def ssvol(draw):
    k = draw(st.sampled_from(["cv", "rho", "v"]))
    if k == "cv":
        return draw(constvol())
    if k == "rho":
        r0 = draw(uni(500, 5000, 5000))
        return {"model": "density-temperature-polynomial",
                "data": [r0, sig(r0 * draw(uni(-2e-4, 1e-4, 1000))), sig(r0 * draw(uni(-5e-8, 5e-8, 1000))),
                         sig(r0 * draw(uni(-2e-11, 2e-11, 1000)))]}
    v0 = draw(uni(0.005, 0.2, 5000))
    return {"model": "molar-volume-temperature-polynomial",
            "data": [v0, sig(v0 * draw(uni(-1e-4, 3e-4, 1000))), sig(v0 * draw(uni(-5e-8, 5e-8, 1000))),
                     sig(v0 * draw(uni(-2e-11, 2e-11, 1000)))]}

BASIS = ["unity", "species-molar-volume", "solvent-molar-volume"]

@st.composite
def ideal_condensed(draw):
    sp = draw(gas_species(1, 4, thermo=any_thermo()))
    for s in sp:
        s["equation-of-state"] = draw(constvol())
    return {"yaml": file([phase("p", "ideal-condensed", sp, **{"standard-concentration-basis": draw(st.sampled_from(BASIS))})], sp),
            "n": len(sp), "T": (300, 1500), "P": (1e3, 1e8)}

@st.composite
def vpss(draw):
    sp = draw(gas_species(1, 4, thermo=any_thermo()))
    for s in sp:
        s["equation-of-state"] = draw(ssvol())
    return {"yaml": file([phase("p", "ideal-solution-VPSS", sp, **{"standard-concentration-basis": draw(st.sampled_from(BASIS))})], sp),
            "n": len(sp), "T": (300, 1500), "P": (1e3, 1e8)}

@st.composite
def margules(draw):
    sp = draw(gas_species(2, 4, thermo=any_thermo()))
    for s in sp:
        s["equation-of-state"] = draw(ssvol())
    inter = []
    for i in range(len(sp)):
        for j in range(i):
            if not inter or draw(st.booleans()):
                pair = [sp[i]["name"], sp[j]["name"]]
                if draw(st.booleans()):
                    pair.reverse()
                d = {"species": pair}
                for key, m in (("excess-enthalpy", 2e7), ("excess-entropy", 1e4),
                               ("excess-volume-enthalpy", 1e-2), ("excess-volume-entropy", 1e-5)):
                    if draw(st.booleans()):
                        d[key] = [draw(uni(-m, m, 1000)), draw(uni(-m, m, 1000))]
                inter.append(d)
    return {"yaml": file([phase("p", "Margules", sp, interactions=inter)], sp), "n": len(sp),
            "T": (300, 1500), "P": (1e3, 1e8)}

@st.composite
def redlich_kister(draw):
    sp = draw(gas_species(2, 4, thermo=any_thermo()))
    for s in sp:
        s["equation-of-state"] = draw(ssvol())
    inter = []
    for i in range(len(sp)):
        for j in range(i):
            if not inter or draw(st.booleans()):
                pair = [sp[i]["name"], sp[j]["name"]]
                if draw(st.booleans()):
                    pair.reverse()
                d = {"species": pair}
                nh = draw(st.integers(1, 5)); ns = draw(st.integers(1, 5))
                d["excess-enthalpy"] = [draw(uni(-2e7, 2e7, 1000)) for _ in range(nh)]
                d["excess-entropy"] = [draw(uni(-1e4, 1e4, 1000)) for _ in range(ns)]
                inter.append(d)
    return {"yaml": file([phase("p", "Redlich-Kister", sp, interactions=inter)], sp), "n": len(sp),
            "T": (300, 1500), "P": (1e3, 1e8)}

@st.composite
def tabulated(draw):
    sp = draw(gas_species(2, 2, thermo=any_thermo()))
    for s in sp:
        s["equation-of-state"] = draw(constvol())
    n = draw(st.integers(2, 6))
    xs = sorted(draw(st.lists(st.integers(5, 995), min_size=n, max_size=n, unique=True)))
    tab = {"mole-fractions": [x / 1000 for x in xs],
           "enthalpy": [draw(uni(-5e7, 5e7, 1000)) for _ in xs],
           "entropy": [draw(uni(-3e4, 3e4, 1000)) for _ in xs]}
    if draw(st.booleans()):
        # smooth, with positive partial molar volumes
        v0 = draw(uni(0.01, 0.2, 1000)); v1 = v0 * draw(uni(0.5, 2, 1000)); e = draw(uni(-0.3, 0.3, 1000))
        tab["molar-volume"] = [v0 + (v1 - v0) * x / 1000 + e * v0 * x / 1000 * (1 - x / 1000) for x in xs]
    return {"yaml": file([phase("p", "binary-solution-tabulated", sp, **{"tabulated-species": "S0",
            "tabulated-thermo": tab, "standard-concentration-basis": draw(st.sampled_from(BASIS))})], sp),
            "n": 2, "T": (300, 1200), "P": (1e3, 1e7), "knots": [x / 1000 for x in xs]}

@st.composite
def fixed_stoich(draw):
    sp = draw(gas_species(1, 1, thermo=any_thermo()))
    sp[0]["equation-of-state"] = draw(constvol())
    return {"yaml": file([phase("p", "fixed-stoichiometry", sp)], sp), "n": 1, "T": (300, 1500), "P": (1e3, 1e8)}

@st.composite
def surface(draw):
    sp = draw(gas_species(1, 5, thermo=any_thermo()))
    for s in sp:
        if draw(st.integers(0, 2)) == 0:
            s["sites"] = draw(st.integers(1, 3))
    return {"yaml": file([phase("p", "ideal-surface", sp, **{"site-density": draw(logu(1e-9, 1e-6))})], sp),
            "n": len(sp), "T": (300, 1500), "P": (1e3, 1e7), "surf": True}

@st.composite
def covdep(draw):
    sp = draw(gas_species(2, 5, thermo=any_thermo()))
    names = [s["name"] for s in sp]
    for s in sp[1:]:
        dep = {}
        for o in names:
            if draw(st.integers(0, 1)):
                continue
            m = draw(st.sampled_from(["linear", "polynomial", "piecewise-linear", "interpolative"]))
            e = lambda: draw(uni(-5e7, 5e7, 1000))
            q = lambda: draw(uni(-3e4, 3e4, 1000))
            if m == "linear":
                d = {"enthalpy": e(), "entropy": q()}
            elif m == "polynomial":
                d = {"enthalpy-coefficients": [e() for _ in range(4)], "entropy-coefficients": [q() for _ in range(4)]}
            elif m == "piecewise-linear":
                d = {"enthalpy-low": e(), "enthalpy-high": e(), "enthalpy-change": draw(uni(0.1, 0.9, 100)),
                     "entropy-low": q(), "entropy-high": q(), "entropy-change": draw(uni(0.1, 0.9, 100))}
            else:
                k = draw(st.integers(2, 5))
                pts = [0.0] + sorted(set(draw(st.lists(st.integers(1, 99), min_size=k - 2, max_size=k - 2, unique=True)))) + [100]
                pts = [p / 100 if p else 0.0 for p in pts]
                d = {"enthalpy-coverages": pts, "enthalpies": [e() for _ in pts],
                     "entropy-coverages": [0.0, 0.5, 1.0], "entropies": [q() for _ in range(3)]}
            d["model"] = m
            if draw(st.integers(0, 2)) == 0:
                d["heat-capacity-a"] = draw(uni(-200, 200, 100)); d["heat-capacity-b"] = draw(uni(-2000, 2000, 100))
            dep[o] = d
        if dep:
            s["coverage-dependencies"] = dep
    return {"yaml": file([phase("p", "coverage-dependent-surface", sp, **{"site-density": draw(logu(1e-9, 1e-6)),
            "reference-state-coverage": draw(uni(0.1, 1.0, 100))})], sp),
            "n": len(sp), "T": (300, 1500), "P": (1e3, 1e7), "surf": True}

IONS = {"Na+": {"Na": 1, "E": -1}, "K+": {"K": 1, "E": -1}, "H+": {"H": 1, "E": -1}, "Mg++": {"Mg": 1, "E": -2},
        "Ca++": {"Ca": 1, "E": -2}, "Cl-": {"Cl": 1, "E": 1}, "OH-": {"O": 1, "H": 1, "E": 1},
        "SO4--": {"S": 1, "O": 4, "E": 2}, "NaCl(aq)": {"Na": 1, "Cl": 1}, "CO2(aq)": {"C": 1, "O": 2}}

@st.composite
def aqueous_species(draw, nmin=2):
    cat = draw(st.lists(st.sampled_from(["Na+", "K+", "H+", "Mg++", "Ca++"]), min_size=1, max_size=2, unique=True))
    an = draw(st.lists(st.sampled_from(["Cl-", "OH-", "SO4--"]), min_size=1, max_size=2, unique=True))
    ne = draw(st.lists(st.sampled_from(["NaCl(aq)", "CO2(aq)"]), min_size=0, max_size=2, unique=True))
    sp = []
    for n in cat + an + ne:
        sp.append({"name": n, "composition": IONS[n], "thermo": draw(st.one_of(mu0poly(), constcp())),
                   "equation-of-state": {"model": "constant-volume", "molar-volume": draw(uni(0.005, 0.06, 1000))}})
    return sp, cat, an, ne

def water(draw, iapws=None):
    if iapws is None:
        iapws = draw(st.booleans())
    w = {"name": "H2O(L)", "composition": {"H": 2, "O": 1}}
    if iapws:
        w["equation-of-state"] = {"model": "liquid-water-IAPWS95"}
    else:
        w["thermo"] = dict(draw(st.one_of(constcp(), nasa7())))
        w["thermo"].pop("reference-pressure", None)
        w["equation-of-state"] = draw(constvol())
    return w

@st.composite
def molalities(draw, cat, an, ne, lo=0.02, hi=3.0):
    """Electroneutral molalities."""
    m = {}
    z = lambda n: abs(IONS[n]["E"])
    eqs = draw(uni(lo, hi, 1000))
    wc = [draw(uni(0.1, 1, 100)) for _ in cat]; wa = [draw(uni(0.1, 1, 100)) for _ in an]
    for n, w in zip(cat, wc):
        m[n] = sig(eqs * w / sum(wc) / z(n), 9)
    for n, w in zip(an, wa):
        m[n] = sig(eqs * w / sum(wa) / z(n), 9)
    for n in ne:
        m[n] = draw(uni(0.0, 1.0, 1000))
    return m

@st.composite
def debye_huckel(draw):
    sp, cat, an, ne = draw(aqueous_species())
    variable = draw(st.integers(0, 3)) == 0
    w = water(draw, True if variable else None)
    for s in sp:
        if s["name"] in cat + an:
            s["Debye-Huckel"] = {"ionic-radius": sig(draw(uni(2e-10, 9e-10, 1000)))}
        elif draw(st.booleans()):
            s["Debye-Huckel"] = {"electrolyte-species-type": draw(st.sampled_from(["nonpolar-neutral", "polar-neutral"]))}
    model = draw(st.sampled_from(["dilute-limit", "B-dot-with-variable-a", "B-dot-with-common-a", "beta_ij", "Pitzer-with-beta_ij"]))
    ad = {"model": model, "B_Debye": "3.28640E9 kg^0.5/gmol^0.5/m", "max-ionic-strength": 30.0,
          "default-ionic-radius": sig(draw(uni(2e-10, 6e-10, 1000)))}
    ad["A_Debye"] = "variable" if variable else f"{draw(uni(0.9, 1.5, 1000))} kg^0.5/gmol^0.5"
    if model.startswith("B-dot"):
        ad["B-dot"] = draw(uni(-0.1, 0.1, 1000))
    if "beta" in model:
        ad["beta"] = [{"species": [c, a], "beta": draw(uni(-0.3, 0.3, 1000))} for c in cat for a in an if draw(st.booleans())]
    sps = [w] + sp
    return {"yaml": file([phase("p", "Debye-Huckel", sps, **{"activity-data": ad})], sps), "n": len(sps),
            "T": (290, 360), "P": (1e5, 1e7), "molal": draw(molalities(cat, an, ne)), "variable": variable, "iapws": "thermo" not in w}

@st.composite
def hmw(draw):
    sp, cat, an, ne = draw(aqueous_species())
    variable = draw(st.integers(0, 3)) == 0
    w = water(draw, True)
    tm = draw(st.sampled_from(["constant", "linear", "complex"]))
    k = {"constant": 1, "linear": 2, "complex": 5}[tm]
    def coef(m):
        c = [draw(uni(-m, m, 1000))]
        return c + [sig(c[0] * draw(uni(-1, 1, 100)) * f) for f in (1e-3, 1e-6, 50.0, 0.3)[:k - 1]]
    inter = []
    for c in cat:
        for a in an:
            if draw(st.integers(0, 3)):
                d = {"species": draw(st.sampled_from([[c, a], [a, c]])), "beta0": coef(0.2), "beta1": coef(0.3), "beta2": coef(0.1),
                     "Cphi": coef(0.005), "alpha1": 2.0}
                if draw(st.booleans()):
                    d["alpha1"] = 1.4; d["alpha2"] = 12.0
                inter.append(d)
    for l in (cat, an):
        if len(l) == 2:
            if draw(st.booleans()):
                inter.append({"species": list(l), "theta": coef(0.1)})
            o = an if l is cat else cat
            if draw(st.booleans()):
                inter.append({"species": list(l) + [o[0]], "psi": coef(0.02)})
    for n in ne:
        for i in cat + an:
            if draw(st.integers(0, 2)) == 0:
                inter.append({"species": [n, i], "lambda": coef(0.2)})
        if draw(st.integers(0, 2)) == 0:
            inter.append({"species": [n, cat[0], an[0]], "zeta": coef(0.03)})
        if draw(st.integers(0, 2)) == 0:
            inter.append({"species": [n], "mu": coef(0.02)})
    ad = {"temperature-model": tm, "A_Debye": "variable" if variable else f"{draw(uni(0.9, 1.5, 1000))} kg^0.5/gmol^0.5",
          "interactions": inter}
    sps = [w] + sp
    return {"yaml": file([phase("p", "HMW-electrolyte", sps, **{"activity-data": ad})], sps), "n": len(sps),
            "T": (285, 385), "P": (3e5, 1e7), "molal": draw(molalities(cat, an, ne)), "variable": variable, "iapws": True}

@st.composite
def ideal_molal(draw):
    sp, cat, an, ne = draw(aqueous_species())
    w = water(draw, None)
    kw = {"standard-concentration-basis": draw(st.sampled_from(BASIS))}
    cut = draw(st.sampled_from(["none", "none", "poly", "polyexp"]))
    if cut == "polyexp":
        kw["cutoff"] = {"model": "polyexp", "gamma_o": 0.0001, "gamma_k": 10.0, "X_o": 0.2, "c_0": 0.05, "slope_f": 0.6, "slope_g": 0.0}
    elif cut == "poly":
        kw["cutoff"] = {"model": "poly", "gamma_o": 0.0001, "gamma_k": 10.0, "X_o": 0.2}
    sps = [w] + sp
    return {"yaml": file([phase("p", "ideal-molal-solution", sps, **kw)], sps), "n": len(sps), "T": (290, 360), "P": (1e5, 1e7),
            "molal": draw(molalities(cat, an, ne)), "iapws": "thermo" not in w}

MODELS = {
    "ideal-gas": ideal_gas, "plasma": plasma, "Redlich-Kwong": lambda: cubic("Redlich-Kwong"),
    "Peng-Robinson": lambda: cubic("Peng-Robinson"), "ideal-condensed": ideal_condensed,
    "ideal-solution-VPSS": vpss, "Margules": margules, "Redlich-Kister": redlich_kister,
    "binary-solution-tabulated": tabulated, "fixed-stoichiometry": fixed_stoich,
    "ideal-surface": surface, "coverage-dependent-surface": covdep, "Debye-Huckel": debye_huckel,
    "HMW-electrolyte": hmw, "ideal-molal-solution": ideal_molal,
}

def molal_X(d, phase_species_mw):
    """Mole fractions from the generated molalities (first species is the solvent)."""
    names = [s["name"] for s in d["yaml"]["species"]]
    n = [1.0 / phase_species_mw[0]] + [d["molal"].get(k, 0.0) * 1e-3 for k in names[1:]]
    return [x / sum(n) for x in n]
