"""P15: transport properties follow kinetic theory and do not depend on history.
Oracles: collision-integral tables and Chapman-Enskog formulas for pure species and pairs;
mixture rules and the Dixon-Lewis L matrix assembled here from those of the object; invariants
(fluxes sum to zero, Stefan-Maxwell); an object with a history against a fresh one.
Non-trivial: a mixture of two or more species."""
import json, os
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, cxx
from gen import uni, logu, fractions
R, kB, NA, eps0, e0 = ct.gas_constant, ct.boltzmann, ct.avogadro, ct.epsilon_0, ct.electron_charge
D = 3.33564095198152e-30       # debye, C m

# ------------------------------------------------------------------ reference collision integrals
_t = json.load(open(os.path.join(os.environ["VERIF_DIR"], "data", "monchick_mason.json")))
DEL = np.array([0, .25, .5, .75, 1, 1.5, 2, 2.5])
TS = np.array(_t["tstar22"])
O22 = np.array(_t["omega22_table"]).reshape(37, 8)
AST, BST, CST = (np.array(_t[k]).reshape(39, 8)[1:38] for k in ("astar_table", "bstar_table", "cstar_table"))

def interp(tab, t, d):
    """Interpolate: linear in delta* between tabulated columns, piecewise quadratic in log T*."""
    i = min(max(np.searchsorted(DEL, d) - 1, 0), 6)
    w = (d - DEL[i]) / (DEL[i + 1] - DEL[i])
    col = tab[:, i] * (1 - w) + tab[:, i + 1] * w
    x = np.log(TS); lt = np.log(t)
    j = min(max(np.searchsorted(x, lt) - 1, 0), len(x) - 3)
    X, Y = x[j:j + 3], col[j:j + 3]
    return sum(Y[a] * np.prod([(lt - X[b]) / (X[a] - X[b]) for b in range(3) if b != a]) for a in range(3))

def om22(t, d): return interp(O22, t, d)
def om11(t, d): return interp(O22, t, d) / interp(AST, t, d)

@st.composite
def species(draw, n=None, charges=False, nmin=1, nmax=5):
    n = draw(st.integers(nmin, nmax)) if n is None else n
    out = []
    two = draw(st.booleans())
    for i in range(n):
        kind = draw(st.sampled_from(["atom", "linear", "linear", "nonlinear"]))
        if kind == "atom":
            comp = {draw(st.sampled_from(["H", "O", "N", "Ar", "He", "C"])): 1}
        else:
            comp = draw(gen.composition())
            if sum(comp.values()) == 1:
                comp = {k: 2 for k in comp}
            if sum(comp.values()) == 2:
                kind = "linear"
        tr = {"model": "gas", "geometry": kind, "diameter": draw(uni(2.0, 6.0, 1000)), "well-depth": draw(uni(50, 600, 1000))}
        if draw(st.integers(0, 2)) == 0 and kind != "atom":
            tr["dipole"] = draw(uni(0.05, 2.5, 200))
        if draw(st.booleans()) or charges:
            tr["polarizability"] = draw(uni(0.3, 5.0, 200))
        if kind != "atom":
            tr["rotational-relaxation"] = draw(st.sampled_from([0.0, 1.0, 1.5, 2.1, 4.0, 10.0, 280.0]))
        cp = draw(uni(2.5 if kind == "atom" else 3.5 if kind == "linear" else 4.0, 2.5 if kind == "atom" else 12.0, 100)) * R
        if two and kind != "atom":
            th = draw(gen.nasa7(Tmin=300.0, Tmax=3000.0))
        else:
            th = {"model": "constant-cp", "T0": "298.15 K", "h0": 0.0, "s0": 1e5, "cp0": cp, "T-min": 300.0, "T-max": 3000.0}
        th.pop("reference-pressure", None)
        out.append({"name": f"S{i}", "composition": comp, "thermo": th, "transport": tr})
    return out

def yaml(sp, model, phase="ideal-gas"):
    els = sorted({e for s in sp for e in s["composition"]})
    return json.dumps({"phases": [{"name": "g", "thermo": phase, "elements": els, "species": [s["name"] for s in sp], "transport": model}], "species": sp})

class Par:
    """Collision parameters of the documented model."""
    def __init__(self, sp, W):
        n = len(sp); tr = [s["transport"] for s in sp]
        self.sig = np.array([t["diameter"] for t in tr]) * 1e-10
        self.eps = np.array([t["well-depth"] for t in tr]) * kB
        self.mu = np.array([t.get("dipole", 0) for t in tr]) * D
        self.al = np.array([t.get("polarizability", 0) for t in tr]) * 1e-30
        self.zrot = np.array([t.get("rotational-relaxation", 0) for t in tr])
        self.crot = np.array([{"atom": 0, "linear": 1.0, "nonlinear": 1.5}[t["geometry"]] for t in tr])
        self.W = W; m = W / NA
        self.red = m[:, None] * m[None, :] / (m[:, None] + m[None, :])
        self.S = (self.sig[:, None] + self.sig[None, :]) / 2
        self.E = np.sqrt(np.outer(self.eps, self.eps))
        self.M = np.sqrt(np.outer(self.mu, self.mu))
        self.delta = 0.5 * self.M**2 / (4 * np.pi * eps0 * self.E * self.S**3)
        for i in range(n):
            for j in range(n):
                a, b = self.mu[i] > 0, self.mu[j] > 0
                if a != b:
                    p, q = (i, j) if a else (j, i)
                    als = self.al[q] / self.sig[q]**3
                    mus = self.mu[p] / np.sqrt(4 * np.pi * eps0 * self.sig[p]**3 * self.eps[p])
                    xi = 1 + 0.25 * als * mus**2 * np.sqrt(self.eps[p] / self.eps[q])
                    self.S[i, j] *= xi**(-1 / 6); self.E[i, j] *= xi**2
    def ok(self, Tmin=300, Tmax=3000):
        t = kB / self.E
        return (t * Tmin > 0.2).all() and (t * Tmax < 90).all() and self.delta.max() < 2.4

def frot(x):
    """Parker's temperature dependence; x = kT/eps."""
    return 1 + np.pi**1.5 / 2 / np.sqrt(x) + (np.pi**2 / 4 + 2) / x + np.pi**1.5 / x**1.5

@st.composite
def pure_case(draw):
    return {"sp": draw(species()), "T": draw(uni(300, 3000)), "P": draw(logu(1e2, 1e8)), "model": draw(st.sampled_from(["mixture-averaged", "multicomponent", "mixture-averaged-CK", "multicomponent-CK"]))}

@sub("P15", "pure-and-pairs", pure_case, quick=1500, thorough=40000, shards=2, tshards=8, floor=0.5,
     rule="species viscosities, conductivities and binary diffusion coefficients of generated species against Chapman-Enskog theory with tabulated collision integrals")
def pure(c, rec):
    sp = c["sp"]
    g = ct.Solution(yaml=yaml(sp, c["model"]))
    W = g.molecular_weights; p = Par(sp, W)
    if not p.ok():
        rec.skip("outside the tables")
    T, P = c["T"], c["P"]
    g.TP = T, P
    n = len(sp)
    ck = c["model"].endswith("CK")
    kin = "polar" if p.mu.any() else "nonpolar"
    # the fits are cubics in log T (CK) or quartics; the fit to the table in delta* adds error for polar species
    tv = 0.02 if ck else 0.006 if kin == "nonpolar" else 0.012
    mu = g.species_viscosities
    x = kB * T / p.eps
    dkk = np.diag(p.delta)
    o22 = np.array([om22(x[k], dkk[k]) for k in range(n)]); o11 = np.array([om11(x[k], dkk[k]) for k in range(n)])
    ref = 5 / 16 * np.sqrt(np.pi * W / NA * kB * T) / (np.pi * p.sig**2 * o22)
    rec.close("viscosity", mu, ref, tv, 0, f"{kin} T={T} T*={x} delta={dkk}")
    Db = g.binary_diff_coeffs
    for i in range(n):
        for j in range(n):
            if i == j and c["model"].startswith("multi"):
                continue    # derived from the viscosity there
            r = 3 / 16 * np.sqrt(2 * np.pi / p.red[i, j]) * (kB * T)**1.5 / (np.pi * p.S[i, j]**2 * om11(kB * T / p.E[i, j], p.delta[i, j])) / P
            rec.close("binary diffusion", Db[i, j], r, tv, 0, f"{kin} {i},{j} T={T} P={P}")
    # conductivities of pure species by setting the composition (not for CK fits: same formula)
    k = int(T) % n
    X = np.zeros(n); X[k] = 1
    if c["model"].startswith("mix"):
        g.TPX = T, P, X
        cp = g.standard_cp_R[k]
        Dk = 3 / 16 * np.sqrt(2 * np.pi / p.red[k, k]) * (kB * T)**1.5 / (np.pi * p.sig[k]**2 * o11[k])
        fint = W[k] / (R * T) * Dk / ref[k]
        A = 2.5 - fint
        B = p.zrot[k] * frot(kB * 298.0 / p.eps[k]) / frot(x[k]) + 2 / np.pi * (5 / 3 * p.crot[k] + fint)
        c1 = 2 / np.pi * A / B
        ftr = 2.5 * (1 - c1 * p.crot[k] / 1.5); fr = fint * (1 + c1)
        lam = ref[k] / W[k] * R * (ftr * 1.5 + fr * p.crot[k] + fint * (cp - 2.5 - p.crot[k]))
        smooth = sp[k]["thermo"]["model"] == "constant-cp"
        if smooth and lam > 0:
            rec.close("conductivity", g.thermal_conductivity, lam, tv * 1.5, 0, f"{kin} T={T} crot={p.crot[k]} zrot={p.zrot[k]} cp={cp}")
    if n > 1 or sp[0]["transport"]["geometry"] != "atom":
        rec.hit(kin + (" CK" if ck else ""))

# ------------------------------------------------------------------ mixture rules
@st.composite
def mix_case(draw):
    sp = draw(species(nmin=2))
    n = len(sp)
    return {"sp": sp, "T": draw(uni(300, 3000)), "P": draw(logu(1e2, 1e8)), "X": draw(fractions(n)), "grad": [draw(uni(-100, 100, 200)) for _ in range(2 * n)],
            "gT": [draw(st.sampled_from([0.0, 0.0, 1e3])), draw(st.sampled_from([0.0, 500.0]))], "real": draw(st.integers(0, 5)) == 0, "CK": draw(st.integers(0, 3)) == 0}

def wilke(x, mu, W):
    phi = (1 + np.sqrt(mu[:, None] / mu[None, :]) * (W[None, :] / W[:, None])**0.25)**2 / np.sqrt(8 * (1 + W[:, None] / W[None, :]))
    return (x * mu / (phi @ x)).sum()

@sub("P15", "mixture-averaged", mix_case, quick=1600, thorough=40000, shards=1, tshards=8, floor=0.8,
     rule="viscosity, conductivity, the three kinds of mixture diffusion coefficients, mobilities and fluxes against the mixture rules")
def mixture(c, rec):
    sp = c["sp"]; n = len(sp)
    mdl = "mixture-averaged" + ("-CK" if c["CK"] else "")
    y = yaml(sp, mdl)
    g = ct.Solution(yaml=y)
    T, P = c["T"], c["P"]
    g.TPX = T, P, c["X"]
    x = np.maximum(g.X, 1e-20); W = g.molecular_weights; mmw = g.mean_molecular_weight
    if not Par(sp, W).ok():
        rec.skip("outside the tables")
    mu = g.species_viscosities; Db = g.binary_diff_coeffs
    rec.check("positive", (mu > 0).all() and (Db > 0).all(), f"{mu} {Db}")
    rec.close("symmetric", Db, Db.T, 1e-12)
    rec.close("viscosity", g.viscosity, wilke(x, mu, W), 1e-9)
    lam = []
    for k in range(n):
        z = np.zeros(n); z[k] = 1; g.TPX = T, P, z; lam.append(g.thermal_conductivity)
    g.TPX = T, P, c["X"]
    lam = np.array(lam)
    rec.close("conductivity", g.thermal_conductivity, 0.5 * ((x * lam).sum() + 1 / (x / lam).sum()), 1e-9)
    for k in range(n):
        v = g.get_viscosity_polynomial(k); w = g.get_thermal_conductivity_polynomial(k); L = np.log(T)
        if c["CK"]:
            rec.close("viscosity polynomial", np.exp(sum(v[i] * L**i for i in range(4))), mu[k], 1e-9)
            rec.close("conductivity polynomial", np.exp(sum(w[i] * L**i for i in range(4))), lam[k], 1e-9)
        else:
            rec.close("viscosity polynomial", np.sqrt(T) * sum(v[i] * L**i for i in range(5))**2, mu[k], 1e-9)
            rec.close("conductivity polynomial", np.sqrt(T) * sum(w[i] * L**i for i in range(5)), lam[k], 1e-9)
        for j in range(k, n):
            d = g.get_binary_diff_coeffs_polynomial(k, j)
            r = np.exp(sum(d[i] * L**i for i in range(4))) if c["CK"] else T**1.5 * sum(d[i] * L**i for i in range(5))
            rec.close("diffusion polynomial", r / P, Db[k, j], 1e-9)
    inv = 1 / Db; np.fill_diagonal(inv, 0)
    s = inv @ x
    others = (x[None, :] * (1 - np.eye(n))).sum(1).min()
    if others > 1e-10:
        rt = 1e-7 + 1e-14 / others      # differences from the pure species
        rec.close("mix_diff_coeffs", g.mix_diff_coeffs, (mmw - x * W) / mmw / s, rt, 1e-30, f"x={x}")
        rec.close("mix_diff_coeffs_mole", g.mix_diff_coeffs_mole, (1 - x) / s, rt, 1e-30)
        sm = s + x / (mmw - W * x) * (inv @ (x * W))
        rec.close("mix_diff_coeffs_mass", g.mix_diff_coeffs_mass, 1 / sm, rt)
        rec.close("mobilities", g.mobilities, e0 / (kB * T) * g.mix_diff_coeffs, 1e-9)
    rec.close("thermal_diff", g.thermal_diff_coeffs, np.zeros(n), 0)
    # fluxes
    h = cxx.ok(cxx.lib().vp_solution(y.encode(), mdl.encode()))
    try:
        gx = np.array(c["grad"]).reshape(2, n); gx -= gx.mean(1)[:, None]
        fl = np.zeros((2, n))
        _, pT = cxx.arr([500.0, 0.0]); X, pX = cxx.arr(g.X); gxa, pg = cxx.arr(gx); fl, pf = cxx.arr(fl)
        import ctypes
        cxx.ok(cxx.lib().vp_setTPX(h, ctypes.c_double(T), ctypes.c_double(P), pX))
        cxx.ok(cxx.lib().vp_speciesFluxes(h, 2, pT, pg, pf))
        j = -g.density_mole * W * g.mix_diff_coeffs * gx
        j = j - g.Y * j.sum(1)[:, None]
        rec.close("species fluxes", fl, j, 1e-8, 1e-12 * abs(j).max())
        rec.close("flux sum", fl.sum(1), [0, 0], 0, 1e-11 * abs(fl).max())
    finally:
        cxx.lib().vp_free(h)
    # unity Lewis number
    u = ct.Solution(yaml=yaml(sp, "unity-Lewis-number")); u.TPX = T, P, c["X"]
    rec.close("unity Lewis", u.mix_diff_coeffs, np.full(n, u.thermal_conductivity / u.density / u.cp_mass), 1e-10)
    rec.hit("CK" if c["CK"] else None)

# ------------------------------------------------------------------ multicomponent
def poly(c, x):
    return sum(v * x**i for i, v in enumerate(c))

def lmatrix(g, p, T, x):
    """Dixon-Lewis L matrix times the pressure; returns (L, cint, has)."""
    n = len(x); W = g.molecular_weights
    Db = g.binary_diff_coeffs * g.P; mu = g.species_viscosities
    A = np.zeros((n, n)); B = A.copy(); C = A.copy()
    for i in range(n):
        for j in range(i, n):
            a, b, c = g.get_collision_integral_polynomials(i, j)
            z = np.log(kB * T / p.E[i, j])
            A[i, j] = A[j, i] = poly(a, z); B[i, j] = B[j, i] = poly(b, z); C[i, j] = C[j, i] = poly(c, z)
    for k in range(n):
        Db[k, k] = 1.2 * R * T * mu[k] * A[k, k] / W[k]      # self diffusion from the viscosity
    z = np.maximum(1.0, p.zrot) * frot(kB * 298.0 / p.eps) / frot(kB * T / p.eps)
    cr = p.crot; ci = g.standard_cp_R - 2.5
    has = ci > 1e-3
    d = np.eye(n)
    L = np.zeros((3 * n, 3 * n))
    for i in range(n):
        for j in range(n):
            s = 0
            for k in range(n):
                s += x[k] / (W[i] * Db[i, k]) * (W[j] * x[j] * (1 - d[i, k]) - W[i] * x[i] * (d[i, j] - d[j, k]))
            L[i, j] = 16 * T / 25 * s
            s = 0
            for k in range(n):
                s += x[j] * x[k] * (d[i, j] - d[i, k]) * W[k] * (1.2 * C[j, k] - 1) / ((W[j] + W[k]) * Db[j, k])
            L[i, n + j] = 8 * T / 5 * s
            L[n + j, i] = L[i, n + j]
            s = 0
            for k in range(n):
                rot = 1 + 5 / (3 * np.pi) * (cr[i] / z[i] + cr[k] / z[k])
                s += x[i] * x[k] / ((W[i] + W[k])**2 * Db[i, k]) * W[i] / W[j] * (
                    (d[j, k] - d[i, j]) * (7.5 * W[j]**2 + 6.25 * W[k]**2 - 3 * W[k]**2 * B[i, k])
                    - 4 * W[j] * W[k] * A[i, k] * (d[j, k] + d[i, j]) * rot)
            L[n + i, n + j] = 16 * T / 25 * s
            if has[j]:
                s = 0
                for k in range(n):
                    s += W[j] * A[j, k] / ((W[j] + W[k]) * Db[j, k]) * (d[i, k] + d[i, j]) * x[j] * x[k] * cr[j] / z[j]
                L[n + i, 2 * n + j] = 32 * T / (5 * np.pi * ci[j]) * s
    L[2 * n:, n:2 * n] = L[n:2 * n, 2 * n:].T
    for i in range(n):
        if has[i]:
            s = 0
            for k in range(n):
                s += x[i] * x[k] / Db[i, k]
                if k != i:
                    s += 12 * x[i] * x[k] / (5 * np.pi * ci[i]) * W[i] / W[k] * A[i, k] / Db[i, k] * cr[i] / z[i]
            L[2 * n + i, 2 * n + i] = -8 / (np.pi * ci[i]**2) * W[i] * x[i]**2 * cr[i] / (R * mu[i] * z[i]) - 4 * T / ci[i] * s
        else:
            L[2 * n + i, 2 * n + i] = 1
    return L, has, Db

@sub("P15", "multicomponent", mix_case, quick=1600, thorough=30000, shards=2, tshards=8, floor=0.6,
     rule="conductivity, thermal and multicomponent diffusion coefficients against the L-matrix equations; fluxes against the Stefan-Maxwell equations")
def multi(c, rec):
    sp = c["sp"]; n = len(sp)
    mdl = "multicomponent" + ("-CK" if c["CK"] else "")
    y = yaml(sp, mdl)
    g = ct.Solution(yaml=y)
    W = g.molecular_weights; p = Par(sp, W)
    if not p.ok():
        rec.skip("outside the tables")
    T, P = c["T"], c["P"]
    X0 = np.maximum(np.array(c["X"]) / sum(c["X"]), 1e-5)
    g.TPX = T, P, X0
    x = g.X
    lam, Dt, Dm = g.thermal_conductivity, g.thermal_diff_coeffs, g.multi_diff_coeffs
    visc = g.viscosity
    L, has, Db = lmatrix(g, p, T, x)
    # the L00,00 block has a null vector; the code's zero diagonal is the conventional choice
    b = np.concatenate([np.zeros(n), x, np.where(has, x, 0)])
    a = np.linalg.solve(L, b)
    resid = np.linalg.cond(L)
    if resid > 1e11:
        rec.skip("ill-conditioned")
    t = max(1e-8, 1e-14 * resid)
    if t > 1e-5:
        rec.skip("ill-conditioned")
    rec.close("conductivity", lam, -4 * (x @ a[n:2 * n] + np.where(has, x, 0) @ a[2 * n:]), t, 0, f"x={x} T={T}")
    ref = 1.6 / R * W * x * a[:n]
    sc = max(abs(ref).max(), 1e-3 * visc)
    rec.close("thermal_diff_coeffs", Dt, ref, t, t * sc, f"x={x}")
    rec.close("thermal_diff sum", Dt.sum(), 0, 0, t * sc + 1e-300)
    inv = np.linalg.inv(L[:n, :n])
    mmw = g.mean_molecular_weight
    ref = 16 * T * mmw / (25 * P) * x[:, None] / W[None, :] * (inv - np.diag(inv)[:, None])
    off = ~np.eye(n, dtype=bool)
    rec.close("multi_diff_coeffs", Dm[off], ref[off], 10 * t, 1e-9 * abs(ref).max(), f"x={x}")
    rec.close("viscosity", visc, wilke(x, g.species_viscosities, W), 1e-9)
    # the ordinary diffusion matrix solves the Stefan-Maxwell equations: j_k = (n W_k/ rho ...) sum W_j D_kj d_j
    Dbp = Db / P
    h = cxx.ok(cxx.lib().vp_solution(y.encode(), mdl.encode()))
    import ctypes
    try:
        gx = np.array(c["grad"]).reshape(2, n)[:, :n]; gx = gx - gx.mean(1)[:, None]
        if not gx[0].any():
            rec.skip("no gradient")
        gT = np.array(c["gT"])
        Xo, po = cxx.arr(np.ones(n) / n)
        _, pT = cxx.arr(gT); Xa, pX = cxx.arr(x); gxa, pg = cxx.arr(gx); fl, pf = cxx.arr(np.zeros((2, n)))
        d = ctypes.c_double
        # visit another composition first
        cxx.ok(cxx.lib().vp_setTPX(h, d(T), d(2 * P), po)); cxx.ok(cxx.lib().vp_speciesFluxes(h, 2, pT, pg, pf))
        cxx.ok(cxx.lib().vp_setTPX(h, d(T), d(P), pX)); cxx.ok(cxx.lib().vp_speciesFluxes(h, 2, pT, pg, pf))
        rho, Y = g.density, g.Y
        V = fl + (Dt[None, :] * gT[:, None] / T)       # ordinary part
        V = V / (rho * Y)                              # diffusion velocities
        for q in range(2):
            rhs = np.array([sum(x[i] * x[j] / Dbp[i, j] * (V[q, j] - V[q, i]) for j in range(n) if j != i) for i in range(n)])
            sc = np.array([sum(x[i] * x[j] / Dbp[i, j] * (abs(V[q, j]) + abs(V[q, i])) for j in range(n) if j != i) for i in range(n)])
            rec.close("Stefan-Maxwell", rhs, gx[q], 1e-7, 1e-9 * sc.max() + 1e-9 * abs(gx).max(), f"direction {q} x={x} gradT={gT}")
        rec.close("flux sum", fl.sum(1), [0, 0], 0, 1e-9 * abs(fl).max())
        lam2, pl = cxx.arr([0.0]); cxx.ok(cxx.lib().vp_conductivity(h, pl))
        rec.close("conductivity after fluxes", lam2[0], lam, t)
    finally:
        cxx.lib().vp_free(h)
    rec.hit("CK" if c["CK"] else None)

# ------------------------------------------------------------------ history
PROPS = ["viscosity", "thermal_conductivity", "species_viscosities", "binary_diff_coeffs", "mix_diff_coeffs", "mix_diff_coeffs_mass", "mix_diff_coeffs_mole",
         "mobilities", "thermal_diff_coeffs", "multi_diff_coeffs", "electrical_conductivity"]

@st.composite
def hist_case(draw):
    model = draw(st.sampled_from(["mixture-averaged", "multicomponent", "multicomponent", "unity-Lewis-number", "ionized-gas", "mixture-averaged-CK", "high-pressure", "high-pressure-Chung"]))
    sp = draw(species(nmin=2, nmax=4, charges=model == "ionized-gas"))
    n = len(sp)
    T = [draw(uni(300, 3000)) for _ in range(2)]; P = [draw(logu(1e3, 1e7)) for _ in range(2)]; X = [draw(fractions(n)) for _ in range(2)]
    if draw(st.booleans()):         # the states visited are close to each other
        e = draw(st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5, 1e-4]))
        T[1] = T[0] * (1 + e); P[1] = P[0] * (1 + e)
        X[1] = list(X[0]); a = int(np.argmax(X[0])); b = (a + 1) % n
        X[1][a] -= e * X[0][a]; X[1][b] += e * X[0][a]
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(["T", "P", "X", "X", "get", "get", "get", "poly", "model"]))
        if k == "get":
            ops.append([k, draw(st.sampled_from(PROPS))])
        elif k == "poly":
            ops.append([k, draw(st.sampled_from(["viscosity", "conductivity", "diffusion"])), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)), draw(uni(0.8, 1.25, 100))])
        elif k == "model":
            ops.append([k, draw(st.sampled_from(["mixture-averaged", "multicomponent", "unity-Lewis-number"]))])
        else:
            ops.append([k, draw(st.integers(0, 1))])
    if model.startswith("high"):
        for s in sp:
            s["critical-parameters"] = {"critical-temperature": draw(uni(100, 280, 100)), "critical-pressure": draw(logu(2e6, 1e7, 50)), "acentric-factor": draw(uni(0, 0.4, 40))}
        ops = [o for o in ops if o[0] not in ("poly", "model")]
    return {"model": model, "sp": sp, "T": T, "P": P, "X": X, "ops": ops, "add": draw(st.sampled_from([None, None, draw(st.sampled_from(PROPS))]))}

def get(g, a):
    try:
        return np.array(getattr(g, a), dtype=float)
    except (ct.CanteraError, NotImplementedError):
        return None

@sub("P15", "history", hist_case, quick=1200, thorough=30000, shards=2, tshards=8, floor=0.7,
     rule="transport properties after a sequence of state changes, evaluations, changes of model and of fit polynomials, against a fresh object")
def history(c, rec):
    sp = json.loads(json.dumps(c["sp"])); model = c["model"]
    if model == "ionized-gas":
        for s, q in zip(sp, [0, 1, 0, -1]):
            if q:
                s["composition"] = dict(s["composition"], E=-q)
        if len(sp) > 3:
            sp[3]["composition"] = {"E": 1}; sp[3]["transport"] = {"model": "gas", "geometry": "atom", "diameter": 2.05, "well-depth": 145.0, "polarizability": 0.667}
    y = yaml(sp, model, "Peng-Robinson" if model.startswith("high") else "ideal-gas")
    def make(st, polys, model):
        g = ct.Solution(yaml=y)
        if g.transport_model != model:
            g.transport_model = model
        g.TPX = st
        for q in polys:
            setpoly(g, *q)
        return g
    def setpoly(g, kind, i, j, f):
        if kind == "viscosity":
            g.set_viscosity_polynomial(i, np.array(g.get_viscosity_polynomial(i)) * f)
        elif kind == "conductivity":
            g.set_thermal_conductivity_polynomial(i, np.array(g.get_thermal_conductivity_polynomial(i)) * f)
        else:
            i, j = min(i, j), max(i, j)
            g.set_binary_diff_coeffs_polynomial(i, j, np.array(g.get_binary_diff_coeffs_polynomial(i, j)) * f)
    try:
        g = f = ct.Solution(yaml=y)
    except ct.CanteraError as e:
        rec.skip("not accepted: " + model)
    T, P, X = c["T"][0], c["P"][0], c["X"][0]
    g.TPX = T, P, X
    if c["add"]:
        d = json.loads(y); last = d["phases"][0]["species"].pop()
        d["species"] = d["species"][:-1]
        g = ct.Solution(yaml=json.dumps(d))
        g.TP = T, P
        get(g, c["add"])
        g.add_species(f.species(last))
        g.TPX = T, P, X
        get(g, "viscosity")
        rec.hit("added species")
    polys = []
    for k, o in enumerate(c["ops"]):
        if o[0] == "T":
            T = c["T"][o[1]]; g.TP = T, P
        elif o[0] == "P":
            P = c["P"][o[1]]; g.TP = T, P
        elif o[0] == "X":
            X = c["X"][o[1]]; g.TPX = T, P, X
        elif o[0] == "model":
            if model in ("ionized-gas",) or model.endswith("CK") or model == o[1]:
                continue
            model = o[1]; g.transport_model = model; polys = []
            rec.check("model", g.transport_model == model, f"{g.transport_model}")
        elif o[0] == "poly":
            setpoly(g, *o[1:]); polys.append(o[1:])
        else:
            get(g, o[1])
    f = make((T, P, X), polys, model)
    for a in PROPS:
        # each property read first on an object of its own
        got = get(g, a); want = get(f, a)
        rec.check(model + ":" + a + ":available", (got is None) == (want is None), lambda: f"{a}: {got} {want}")
        if got is not None and not (max(X) > 1 - 1e-9 * sum(X) and a[:3] in ("mix", "mob", "ele")):
            fresh = get(make((T, P, X), polys, model), a)
            rt = 1e-7 if model.startswith("high") else 1e-9
            if a[:3] in ("mix", "mob", "ele"):
                rt += 1e-14 / (1 - max(X) / sum(X))
            rec.close(model + ":" + a, got, fresh, rt, 1e-9 * np.nanmax(abs(fresh)) if a in ("multi_diff_coeffs", "thermal_diff_coeffs") else 1e-300, f"after {c['ops']}")
            rec.close(model + ":" + a, want, fresh, rt, 1e-9 * np.nanmax(abs(fresh)) if a in ("multi_diff_coeffs", "thermal_diff_coeffs") else 1e-300, f"second evaluation {a}")
    rec.hit(model)
