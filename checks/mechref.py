"""Reference evaluation of reaction rates, straight from the documented rate expressions
and the reaction entries of a mechanism (SI/kmol units).  Independent of Cantera except
for the thermodynamic functions handed in."""
import math, re
import numpy as np

R = 8314.462618153241
F = 96485332.1233100
log, exp, sqrt = math.log, math.exp, math.sqrt

def parse_side(s):
    out, fall = {}, None
    m = re.search(r"\(\+\s*(\S+?)\s*\)", s)
    if m:
        fall = m.group(1)
        s = s.replace(m.group(0), "")
    for tok in s.split(" + "):
        tok = tok.strip()
        if not tok:
            continue
        p = tok.split()
        n, name = (float(p[0]), p[1]) if len(p) == 2 else (1.0, p[0])
        out[name] = out.get(name, 0) + n
    return out, fall

def parse(eq):
    rev = "<=>" in eq or " = " in eq
    l, r = eq.split("<=>" if "<=>" in eq else "=>" if "=>" in eq else "=")
    L, fall = parse_side(l)
    Rr, _ = parse_side(r)
    three = "M" in L and "M" in Rr
    if three:
        L.pop("M"); Rr.pop("M")
    return L, Rr, rev, three, fall

def arr(p, T):
    if isinstance(p, (list, tuple)):
        p = dict(zip(("A", "b", "Ea"), p))
    return p["A"] * T**p.get("b", 0) * exp(-p.get("Ea", 0) / (R * T))

def troe_F(Fc, Pr):
    lf, lp = math.log10(max(Fc, 1e-300)), math.log10(Pr)
    c, n = -0.4 - 0.67 * lf, 0.75 - 1.27 * lf
    f1 = (lp + c) / (n - 0.14 * (lp + c))
    return 10**(lf / (1 + f1 * f1))

def falloff_k(d, T, M, chem=False):
    k0, ki = arr(d["low-P-rate-constant"], T), arr(d["high-P-rate-constant"], T)
    Pr = k0 * M / ki
    Fv = 1.0
    if Pr <= 0:
        Pr = 1e-300
    if "Troe" in d:
        t = d["Troe"]
        Fc = (1 - t["A"]) * exp(-T / t["T3"]) + t["A"] * exp(-T / t["T1"])
        if t.get("T2"):
            Fc += exp(-t["T2"] / T)
        Fv = troe_F(Fc, Pr)
    elif "SRI" in d:
        s = d["SRI"]
        lp = math.log10(Pr)
        Fv = (s["A"] * exp(-s["B"] / T) + exp(-T / s["C"]))**(1 / (1 + lp * lp)) * s.get("D", 1.0) * T**s.get("E", 0.0)
    elif "Tsang" in d:
        Fv = troe_F(d["Tsang"]["A"] + d["Tsang"].get("B", 0) * T, Pr)
    return k0 / (1 + Pr) * Fv if chem else ki * Pr / (1 + Pr) * Fv

def plog_k(rates, T, P):
    by = {}
    for r in rates:
        by.setdefault(r["P"], 0.0)
        by[r["P"]] += arr(r, T)
    ps = sorted(by)
    if P <= ps[0]:
        return by[ps[0]]
    if P >= ps[-1]:
        return by[ps[-1]]
    for a, b in zip(ps, ps[1:]):
        if a <= P <= b:
            w = (log(P) - log(a)) / (log(b) - log(a))
            return exp((1 - w) * log(by[a]) + w * log(by[b]))

def cheb_k(d, T, P):
    t0, t1 = d["temperature-range"]; p0, p1 = d["pressure-range"]
    Tr = (2 / T - 1 / t0 - 1 / t1) / (1 / t1 - 1 / t0)
    Pr = (2 * math.log10(P) - math.log10(p0) - math.log10(p1)) / (math.log10(p1) - math.log10(p0))
    a = np.array(d["data"], float)
    return 10**float(np.polynomial.chebyshev.chebval2d(Tr, Pr, a))

def bm_k(p, T, dH):
    E0, w = p["Ea0"], p["w"]
    if dH < -4 * E0:
        E = 0.0
    elif dH > 4 * E0:
        E = dH
    else:
        vp = 2 * w * (w + E0) / (w - E0)
        E = (w + dH / 2) * (vp - 2 * w + dH)**2 / (vp * vp - 4 * w * w + dH * dH)
    return p["A"] * T**p.get("b", 0) * exp(-E / (R * T))

def any_k(d, T, P, X):
    t = d["type"]
    if t == "pressure-dependent-Arrhenius":
        return plog_k(d["rate-constants"], T, P)
    if t == "Chebyshev":
        return cheb_k(d, T, P)
    return falloff_k(d, T, P / (R * T))

def lmrr_k(d, T, P, X):
    cols = d["colliders"]
    base = cols[0]
    eps = {"M": 1.0}
    kx = {"M": base}
    e0 = base.get("eig0")
    for c in cols[1:]:
        if e0:
            e = c["eig0"]
            eps[c["name"]] = arr(e, T) / arr(e0, T)
        else:
            eps[c["name"]] = arr(c["efficiency"], T)
        kx[c["name"]] = c if "type" in c else None
    named = [c["name"] for c in cols[1:]]
    mix = sum(X[n] * eps[n] for n in named) + (sum(X.values()) - sum(X[n] for n in named))
    k = 0.0
    for n in named:
        w = X[n] * eps[n] / mix
        if kx[n] is None:
            k += w * any_k(base, T, P * mix, X)
        else:
            k += w * any_k(kx[n], T, P * mix / eps[n], X)
    wm = (sum(X.values()) - sum(X[n] for n in named)) / mix
    return k + wm * any_k(base, T, P * mix, X)

class Bulk:
    """names: species; rx: reaction entries.  h, g: molar enthalpies and standard Gibbs
    functions [J/kmol]; C: (activity) concentrations; c0: standard concentrations."""
    def __init__(self, names, rx):
        self.names, self.rx = names, rx
        self.p = []
        for d in rx:
            L, Rr, rev, three, fall = parse(d["equation"])
            t = d.get("type")
            eff, spectator = None, None
            if three:
                eff = {n: d.get("default-efficiency", 1.0) for n in names}
                eff.update(d.get("efficiencies", {}))
            elif fall:
                if fall == "M":
                    eff = {n: d.get("default-efficiency", 1.0) for n in names}
                    eff.update(d.get("efficiencies", {}))
                else:
                    eff = {fall: 1.0}
            elif t in (None, "three-body", "elementary") and "low-P-rate-constant" not in d:
                both = [s for s in L if s in Rr]
                if t == "three-body" and both:
                    # one collider, written as a species
                    spectator = both[0]
            self.p.append((L, Rr, rev, three, fall, eff, spectator))

    def eval(self, T, P, X, C, h, g, c0, z=None, phi=None):
        """lists: kf (without third-body factor), Kc, kr, M, ropf, ropr"""
        out = dict(kf=[], Kc=[], kr=[], M=[], ropf=[], ropr=[], dH=[], dG0=[])
        Xd = dict(zip(self.names, X)); Cd = dict(zip(self.names, C))
        H = dict(zip(self.names, h)); G = dict(zip(self.names, g)); C0 = dict(zip(self.names, c0))
        for d, (L, Rr, rev, three, fall, eff, spectator) in zip(self.rx, self.p):
            def delta(f):
                return sum(n * f[s] for s, n in Rr.items()) - sum(n * f[s] for s, n in L.items())
            dH, dG = delta(H), delta(G)
            M = float("nan")
            if eff is not None:
                M = sum(e * Cd[s] for s, e in eff.items() if s in Cd)
            t = d.get("type")
            if t in ("falloff", "chemically-activated") or "low-P-rate-constant" in d:
                kf = falloff_k(d, T, M, t == "chemically-activated")
            elif t == "pressure-dependent-Arrhenius":
                kf = plog_k(d["rate-constants"], T, P)
            elif t == "Chebyshev":
                kf = cheb_k(d, T, P)
            elif t == "linear-Burke":
                kf = lmrr_k(d, T, P, Xd)
            elif t == "Blowers-Masel":
                kf = bm_k(d["rate-constant"], T, dH)
            else:
                kf = arr(d["rate-constant"], T)
            try:
                Kc = exp(-dG / (R * T))
                for s, n in Rr.items(): Kc *= C0[s]**n
                for s, n in L.items(): Kc /= C0[s]**n
            except OverflowError:
                Kc = float("inf")
            kr = (kf / Kc if Kc else float("inf")) if rev else 0.0
            order = {s: float(n) for s, n in L.items()}
            order.update(d.get("orders", {}))
            f = kf
            for s, o in order.items():
                f *= Cd[s]**o if (Cd[s] > 0 or o >= 0) else float("inf")
            r = kr
            for s, n in Rr.items():
                r *= Cd[s]**n
            if three:
                f *= M; r *= M
            for k, v in zip(("kf", "Kc", "kr", "M", "ropf", "ropr", "dH", "dG0"), (kf, Kc, kr, M, f, r, dH, dG)):
                out[k].append(v)
        return out

    def stoich(self):
        nr = np.zeros((len(self.names), len(self.rx))); npp = nr.copy()
        ix = {n: i for i, n in enumerate(self.names)}
        for j, (L, Rr, *_r) in enumerate(self.p):
            for s, n in L.items(): nr[ix[s], j] += n
            for s, n in Rr.items(): npp[ix[s], j] += n
        return nr, npp

# ------------------------------------------------------------------ interfaces
def cov_factor(d, T, theta):
    a = m = E = 0.0
    lnm = 0.0
    for s, c in d.get("coverage-dependencies", {}).items():
        if isinstance(c, dict):
            ca, cm, cE = c["a"], c["m"], c["E"]
        else:
            ca, cm, cE = c
        th = theta[s]
        a += ca * th
        lnm += cm * log(max(th, 1e-20))
        if isinstance(cE, (list, tuple)):
            E += sum(e * th**(i + 1) for i, e in enumerate(cE))
        else:
            E += cE * th
    return exp(log(10) * a + lnm - E / (R * T))

def interface_k(d, L, Rr, T, theta, site, size, W, surf_names, gas_names, dH, motz, dphi=None, dG0=None, c0prod=1.0):
    t = d.get("type", "")
    stick = "sticking-coefficient" in d
    p = d["sticking-coefficient" if stick else "rate-constant"]
    k = bm_k(p, T, dH) if "Blowers-Masel" in t else arr(p, T)
    k *= cov_factor(d, T, theta)
    if dphi is not None:
        k *= exp(-d.get("beta", 0.5) * dphi / (R * T))
        if d.get("exchange-current-density-formulation"):
            k *= exp(-d.get("beta", 0.5) * dG0 / (R * T)) / (F * c0prod)
    if stick:
        if d.get("Motz-Wise", motz):
            k = k / (1 - k / 2)
        g = d.get("sticking-species") or [s for s in L if s in gas_names][0]
        order = {s: n for s, n in L.items()}
        order.update(d.get("orders", {}))
        k *= sqrt(R * T / (2 * math.pi * W[g]))
        for s in L:
            if s != g and s in surf_names:
                k *= (size[s] / site)**order[s]
    return k
