"""P01: thermodynamic identities of every phase model.
A case is a phase definition (generated, or one shipped with Cantera) plus a state
(T, P, composition, electric potential).  The oracle is thermodynamics itself: algebraic
identities between the properties the phase reports, and derivative identities whose
left-hand sides are finite differences (with estimated error) of other reported properties.
A case is non-trivial when at least 8 identities could be evaluated at its state."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions

R = ct.gas_constant
F = ct.faraday
ASSUMPTIONS = ["states lie inside the validity range of the phase's species thermo",
               "derivative identities are decided to 1e-5 relative (looser for models that solve an equation of state iteratively)"]

SC = ["enthalpy_mole", "int_energy_mole", "entropy_mole", "gibbs_mole", "cp_mole", "cv_mole", "volume_mole"]
VE = ["partial_molar_enthalpies", "partial_molar_entropies", "partial_molar_int_energies", "partial_molar_cp",
      "partial_molar_volumes", "chemical_potentials", "standard_enthalpies_RT", "standard_entropies_R",
      "standard_gibbs_RT", "standard_cp_R"]

def get(p, name):
    try:
        v = getattr(p, name)
    except NotImplementedError:
        return None
    except ct.CanteraError as e:
        s = str(e)
        if "NotImplementedError" in s or "ot implemented" in s or "not yet" in s:
            return None
        raise
    v = np.array(v, float)
    return v

def snap(p, names):
    return {n: get(p, n) for n in names}

# library phases: file, phase, T range, P range, kind
LIB = []
def _lib(f, ph, T, P, kind="X", rt=1e-6):
    LIB.append(dict(file=f, phase=ph, T=T, P=P, kind=kind, rt=rt))
for f, ph in (("gri30.yaml", "gri30"), ("air.yaml", "air"), ("h2o2.yaml", "ohmech"), ("ohn.yaml", "gas"),
              ("gri30_ion.yaml", "gas"), ("silicon.yaml", "gas")):
    if f != "silicon.yaml":
        _lib(f, ph, (300, 3000), (1e2, 1e8))
_lib("airNASA9.yaml", "airNASA9", (300, 6000), (1e2, 1e8))
_lib("nDodecane_Reitz.yaml", "nDodecane_RK", (450, 2500), (1e5, 2e7), rt=1e-5)
_lib("h2o2.yaml", "ohmech-RK", (300, 2500), (1e5, 2e7), rt=1e-5)
_lib("co2_RK_example.yaml", "carbondioxide", (320, 2000), (1e5, 3e7), rt=1e-5)
_lib("co2_PR_example.yaml", "CO2-PR", (320, 2000), (1e5, 3e7), rt=1e-5)
_lib("methane_co2.yaml", "methane_co2", (320, 2000), (1e5, 3e7), rt=1e-5)
for ph, Tc in (("water", 647.3), ("nitrogen", 126.2), ("methane", 190.6), ("hydrogen", 33.0), ("oxygen", 154.6),
               ("carbon-dioxide", 304.2), ("heptane", 537.7), ("HFC-134a", 374.2)):
    lo = {"hydrogen": 0.6, "carbon-dioxide": 0.74}.get(ph, 0.55)
    _lib("liquidvapor.yaml", ph, (lo * Tc, 2.0 * Tc if ph not in ("HFC-134a", "heptane") else 1.2 * Tc), (1e5, 2e7), "pure", rt=1e-4)
_lib("liquidvapor.yaml", "liquid-water-IAPWS95", (280, 600), (1.5e7, 1e8), "pure", rt=1e-4)
_lib("lithium_ion_battery.yaml", "anode", (280, 400), (1e4, 1e6))
_lib("lithium_ion_battery.yaml", "cathode", (280, 400), (1e4, 1e6))
_lib("lithium_ion_battery.yaml", "electrolyte", (280, 400), (1e4, 1e6))
_lib("ptcombust.yaml", "Pt_surf", (300, 2000), (1e3, 1e6), "surf")
_lib("diamond.yaml", "diamond_100", (300, 2000), (1e3, 1e6), "surf")
_lib("sofc.yaml", "tpb", (300, 2000), (1e3, 1e6), "surf")
_lib("sofc.yaml", "oxide_surface", (300, 2000), (1e3, 1e6), "surf")
_lib("sofc.yaml", "oxide_bulk", (300, 2000), (1e3, 1e6))
_lib("copt_covdepsurf_example.yaml", "covdep", (350, 1000), (1e3, 1e6), "surf")
for ph, T in (("ice", (200, 270)), ("liquid_water", (280, 550))):
    _lib("water.yaml", ph, T, (1e4, 1e7))
_lib("graphite.yaml", "graphite", (250, 3000), (1e4, 1e7))
_lib("KOH.yaml", "KOH_liquid", (700, 1500), (1e4, 1e7))
_lib("IdealSolidSolnPhaseExample.yaml", "solidSolutionExample", (300, 1400), (1e4, 1e7))
_lib("IdealSolidSolnPhaseExample.yaml", "VpssSolidSolutionExample", (300, 1400), (1e4, 1e7))
_lib("LiKCl_liquid.yaml", "MoltenSalt_electrolyte", (700, 1500), (1e4, 1e7))
_lib("thermo-models.yaml", "Redlich-Kister-LiC6", (300, 500), (1e4, 1e7))
_lib("thermo-models.yaml", "Redlich-Kister-complex", (700, 1100), (1e4, 1e7))
_lib("thermo-models.yaml", "molten-salt-Margules", (700, 1100), (1e4, 1e7))
_lib("thermo-models.yaml", "Li7Si3-interstitial", (300, 900), (1e4, 1e7))
_lib("thermo-models.yaml", "IdealSolidSolnPhase2", (300, 900), (1e4, 1e7))
_lib("thermo-models.yaml", "IdealSolnGas-liquid", (280, 370), (1e5, 1e7))
for ph in ("dilute", "B-dot-ak", "B-dot-a", "pitzer-beta_ij", "beta_ij", "dilute-IAPWS", "B-dot-ak-IAPWS",
           "B-dot-a-IAPWS", "pitzer-beta_ij-IAPWS", "beta_ij-IAPWS"):
    _lib("debye-huckel-all.yaml", "debye-huckel-" + ph, (290, 360), (1e5, 1e7), "molal:Na+,Cl-", rt=1e-5)
_lib("thermo-models.yaml", "HMW-NaCl-electrolyte", (300, 450), (1e6, 1e7), "molal:Na+,Cl-", rt=1e-5)
_lib("thermo-models.yaml", "HMW-NaCl-HKFT", (300, 400), (1e6, 1e7), "molal:Na+,Cl-", rt=1e-5)
_lib("pdss_hkft.yaml", "vpss_soln_pdss_hkft_phase", (300, 400), (1e6, 1e7), rt=1e-5)
_lib("HMW_NaCl_sp1977_alt.yaml", "NaCl_electrolyte", (300, 420), (1e6, 1e7), "molal:Na+,Cl-", rt=1e-5)
_lib("thermo-models.yaml", "ideal-molal-aqueous", (290, 360), (1e5, 1e7), "molal:CO2(aq)")

@st.composite
def gen_case(draw):
    model = draw(st.sampled_from([m for m in gen.MODELS if m != "plasma"]))
    d = draw(gen.MODELS[model]())
    c = {"model": model, "d": d, "T": draw(uni(*d["T"])), "P": draw(logu(*d["P"]))}
    c["X"] = None if "molal" in d else draw(fractions(d["n"]))
    if d.get("knots"):                                      # inside the table; sometimes exactly on an entry
        k = d["knots"]
        q = draw(st.sampled_from(k)) if draw(st.integers(0, 3)) == 0 else k[0] + (k[-1] - k[0]) * c["X"][0]
        c["X"] = [q, 1 - q]
    c["phi"] = draw(st.sampled_from([0.0, 0.0, 0.7, -1.3]))
    c["dir"] = draw(st.integers(0, 50))
    return c

@st.composite
def lib_case(draw):
    i = draw(st.integers(0, len(LIB) - 1))
    L = LIB[i]
    c = {"lib": [L["file"], L["phase"]], "T": draw(uni(*L["T"])), "P": draw(logu(*L["P"]))}
    c["x"] = draw(fractions(12))
    c["m"] = draw(logu(1e-3, 5.0))
    c["phi"] = draw(st.sampled_from([0.0, 0.0, 0.7, -1.3]))
    c["dir"] = draw(st.integers(0, 50))
    return c

def path(f):
    import os
    q = os.path.join(os.environ["VERIF_DIR"], "data", f)
    return q if os.path.exists(q) else f

def temps(p):
    """Temperatures where a species parametrization changes region."""
    out = set()
    for k in range(p.n_species):
        d = p.species(k).input_data
        th = d.get("thermo", {})
        out.update(th.get("temperature-ranges", [])[0:])
        if th.get("model") == "piecewise-Gibbs":
            out.update(float(x) for x in th.get("data", {}))
    return out

@sub("P01", "generated", gen_case, quick=1600, thorough=40000, shards=6, tshards=8, floor=0.9,
     rule="14 phase models with generated species thermo, equation-of-state and interaction parameters; mixtures include zeros and traces")
def generated(c, rec):
    d = c["d"]
    p = ct.Solution(yaml=json.dumps(d["yaml"]))
    p.TP = c["T"], c["P"]
    if c["X"] is None:
        X = gen.molal_X(d, p.molecular_weights)
    else:
        X = c["X"]
    identities(c["model"] + ("-VE" if any("volume" in k for i in d["yaml"]["phases"][0].get("interactions", []) for k in i) else "") + ("-A(T)" if d.get("variable") else "") +
               ("-IAPWS" if d.get("iapws") and not d.get("variable") else ""),
               p, c["T"], c["P"], np.array(X), c, rec,
               rt={"Redlich-Kwong": 1e-5, "Peng-Robinson": 1e-5}.get(c["model"], 1e-5 if d.get("iapws") else 1e-6),
               molal="molal" in d, knots=d.get("knots"), extra=d)

@sub("P01", "library", lib_case, quick=500, thorough=12000, shards=4, tshards=8, floor=0.85,
     rule="every kind of phase definition shipped with Cantera (plus those of its test data) at generated states")
def library(c, rec):
    f, ph = c["lib"]
    L = next(l for l in LIB if l["file"] == f and l["phase"] == ph)
    kind = L["kind"]
    p = (ct.Interface if kind == "surf" else ct.PureFluid if kind == "pure" and f == "liquidvapor.yaml"
         else ct.ThermoPhase)(path(f), ph)
    n = p.n_species
    T, P = c["T"], c["P"]
    if n == 1:
        X = np.ones(1)
    elif kind.startswith("molal"):
        names = kind[6:].split(",")
        X = np.zeros(n)
        X[0] = 1 / p.molecular_weights[0]
        for k in range(1, n):
            X[k] = 1e-9
        for nm in names:
            X[p.species_index(nm)] = c["m"] * 1e-3
        X /= X.sum()
        ch = np.dot(X, p.charges)
        if ch:                              # restore electroneutrality after the traces
            k = p.species_index("Cl-")
            X[k] += ch
        X /= X.sum()
    else:
        x = (c["x"] * (n // 12 + 1))[:n]
        if not sum(x):
            x[0] = 1.0
        if "hkft" in ph:
            x[0] += sum(x)                  # an aqueous solution
        X = np.array(x) / sum(x)
    identities(ph, p, T, P, X, c, rec, rt=L["rt"], molal=kind.startswith("molal"), pure=kind == "pure",
               knots=[0.0, 1.0] + [i / 10000 for i in range(1)] if p.thermo_model == "binary-solution-tabulated" else None)

def setTPX(p, T, P, X):
    p.TPX = T, P, X

def identities(tag, p, T, P, X, c, rec, rt, molal=False, pure=False, knots=None, extra=None):
    n = p.n_species
    try:
        setTPX(p, T, P, X)
    except ct.CanteraError as e:
        if pure or "hkft" in tag:
            rec.skip("state not reachable")
        raise
    if c["phi"]:
        p.electric_potential = c["phi"]
    if pure and p.thermo_model == "pure-fluid":
        if T < p.critical_temperature * 1.02:
            # keep away from the saturation line and the critical region
            try:
                ps = p.P_sat
            except ct.CanteraError:
                rec.skip("no saturation pressure")
            setTPX(p, T, P, X)
            if abs(P / ps - 1) < 0.1 or T > 0.98 * p.critical_temperature:
                rec.skip("near saturation")
        if abs(P / p.critical_pressure - 1) < 0.5 and T < 1.15 * p.critical_temperature:
            rec.skip("near critical")
    X = np.array(p.X)
    cnt = [0]
    b = snap(p, SC + VE)
    RT = R * T
    mw = p.mean_molecular_weight
    v = b["volume_mole"]
    nz = X > 0
    def S(sig):
        return f"{tag}:{sig}"
    def close(sig, x, y, rtol, atol, msg=""):
        cnt[0] += 1
        if np.ndim(x) or np.ndim(y):
            x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
            if not x.size:
                return
            rtol = np.broadcast_to(rtol, x.shape)
            atol = np.broadcast_to(atol, x.shape)
            i = int(np.argmax(np.nan_to_num(np.abs(x - y) - rtol * np.maximum(np.abs(x), np.abs(y)) - atol, nan=np.inf)))
            x, y, rtol, atol, msg = x[i], y[i], rtol[i], atol[i], f"{msg} [{i}]"
        rec.close(S(sig), float(x), float(y), float(rtol), float(atol), msg or f"T={T} P={P}")
    def have(*names):
        return all(b[k] is not None for k in names)
    e = 1e-10
    # ---- bulk quantities
    h, u, s, g, cp, cv = (b[k] for k in SC[:6])
    if have("enthalpy_mole", "int_energy_mole"):
        close("h=u+Pv", h, u + P * v, 1e-8 if pure else e, 1e-12 * RT + 1e-9 * abs(P * v))
    if have("gibbs_mole", "enthalpy_mole", "entropy_mole"):
        close("g=h-Ts", g, h - T * s, e, e * (abs(h) + abs(T * s)))
    mass = snap(p, ["enthalpy_mass", "int_energy_mass", "entropy_mass", "gibbs_mass", "cp_mass", "cv_mass", "volume_mass"])
    surfish = p.thermo_model in ("ideal-surface", "coverage-dependent-surface", "edge")
    for a, m in zip(SC[:6] if surfish else SC, mass):
        if b[a] is not None and mass[m] is not None:
            close("mass-basis", mass[m] * mw, b[a], 1e-11, 0, m)
    if not surfish:
        close("density", p.density_mass * mass["volume_mass"], 1.0, 1e-12, 0)
        close("density", p.density_mole * v, 1.0, 1e-12, 0)
    close("mean-mw", mw, np.dot(X, p.molecular_weights), 1e-12, 0)
    close("P", p.P, P, 1e-6 if pure else 1e-9, 0)
    Pn, P = P, p.P
    try:
        C = p.concentrations
        if surfish:
            # sites-weighted: sum of C_k * size_k is the site density
            pass
        elif p.thermo_model not in ("fixed-stoichiometry",):
            close("concentrations", C, X * p.density_mole, 1e-10, 1e-300)
    except NotImplementedError:
        pass
    # ---- partial molar sums (over species that are present)
    hk, sk, uk, cpk, vk, mu = (b[k] for k in VE[:6])
    hs, ss, gs, cps = (b[k] for k in VE[6:])
    def wsum(a):
        return float(np.sum(X[nz] * a[nz]))
    def wabs(a):
        return float(np.sum(np.abs(X[nz] * a[nz])))
    for sig, tot, par, sc in (("h=sum", "enthalpy_mole", "partial_molar_enthalpies", RT),
                              ("s=sum", "entropy_mole", "partial_molar_entropies", R),
                              ("u=sum", "int_energy_mole", "partial_molar_int_energies", RT),
                              ("cp=sum", "cp_mole", "partial_molar_cp", R),
                              ("v=sum", "volume_mole", "partial_molar_volumes", 0),
                              ("g=sum", "gibbs_mole", "chemical_potentials", RT)):
        if have(tot, par):
            close(sig, wsum(b[par]), b[tot], 1e-9, 1e-10 * wabs(b[par]) + 1e-10 * sc)
    if have("chemical_potentials", "partial_molar_enthalpies", "partial_molar_entropies"):
        close("mu=hk-Tsk", mu[nz], (hk - T * sk)[nz], 1e-9, 1e-10 * (np.abs(hk) + T * np.abs(sk) + RT)[nz])
    if have("partial_molar_int_energies", "partial_molar_enthalpies", "partial_molar_volumes"):
        close("uk=hk-Pvk", uk[nz], (hk - P * vk)[nz], 1e-9, 1e-10 * (np.abs(hk) + P * np.abs(vk) + RT)[nz])
    if have("standard_gibbs_RT", "standard_enthalpies_RT", "standard_entropies_R"):
        close("g0=h0-Ts0", gs, hs - ss, 1e-9, 1e-10 * (np.abs(hs) + np.abs(ss) + 1))
    # ---- activities
    a = get(p, "activities")
    ac = get(p, "activity_coefficients")
    if have("chemical_potentials", "standard_gibbs_RT") and a is not None and n > 1:
        ok = nz & (a > 0)
        close("mu=mu0+RTlna", mu[ok] / RT, gs[ok] + np.log(a[ok]), 1e-9, 1e-9 * (np.abs(gs[ok]) + 1))
    if a is not None and ac is not None:
        if molal:
            k = np.arange(n) > 0
            xo = X[0]
            m = X / (p.molecular_weights[0] * 1e-3 * xo)       # mol/kg solvent
            # the reported coefficients are on the infinite-dilution mole-fraction scale
            close("a=gamma*m", a[1:], (ac * m * xo)[1:], 1e-9, 1e-300)
        elif not surfish:
            close("a=gamma*X", a[nz], (ac * X)[nz], 1e-9, 1e-300)
    if p.thermo_model == "HMW-electrolyte" and a is not None:
        # the model limits ln(gamma) by design; stay inside the unlimited range
        xo = X[0]
        m = X / (p.molecular_weights[0] * 1e-3 * xo)
        on = (X > 0) & (np.arange(n) > 0)
        lg = np.log(a[on] / m[on])
        if len(lg) and (lg.min() < -4.5 or lg.max() > 13):
            rec.skip("activity coefficients in the limited range")
    # ---- electrochemical potentials
    ec = get(p, "electrochemical_potentials")
    if ec is not None and mu is not None:
        close("electrochemical", ec[nz], (mu + F * c["phi"] * p.charges)[nz], 1e-10, 1e-10 * RT)
    # ---- derivatives
    kn = temps(p)
    dT = T * 2e-4 if not pure else T * 1e-3
    dP = P * (1e-3 if P < 1e6 or not pure else 3e-3)
    if p.thermo_model not in ("ideal-gas", "Redlich-Kwong", "Peng-Robinson", "pure-fluid"):
        dP = P * 0.05
        if extra and extra.get("iapws") or "IAPWS" in tag or "HMW" in tag or "hkft" in tag or "HKFT" in tag:
            dP = P * 0.02; dT = T * 1e-3
    Tk = any(abs(T - t) < 3 * dT for t in kn)
    rough = {"v": 1e-11}
    names = SC + VE
    def fd(setter, dx, x0):
        """{name: (derivative, error estimate)}"""
        sn = {}
        for i in (-2, -1, 1, 2):
            setter(x0 + i * dx)
            sn[i] = snap(p, names)
        out = {}
        for k in names:
            if any(sn[i][k] is None for i in sn):
                out[k] = None; continue
            with np.errstate(all="ignore"):
                d1 = (sn[1][k] - sn[-1][k]) / (2 * dx)
                d2 = (8 * (sn[1][k] - sn[-1][k]) - (sn[2][k] - sn[-2][k])) / (12 * dx)
            mag = np.maximum(np.abs(sn[1][k]), np.abs(sn[-1][k]))
            out[k] = (d2, 0.2 * np.abs(d1 - d2) + 20 * 2.3e-16 * mag / abs(dx)
                      + (rt * 1e-5 * mag / abs(dx) if rt > 1e-6 else 0))
        return out
    def dclose(sig, fdv, exact, scale):
        if fdv is None or exact is None:
            return
        val, err = fdv
        if np.ndim(val):
            val, err, ex = val[nz], err[nz], np.asarray(exact)[nz]
            sc = np.broadcast_to(scale, (n,))[nz] if np.ndim(scale) else scale
        else:
            ex, sc = exact, scale
        close(sig, val, ex, 10 * rt, err + 10 * rt * sc, f"T={T} P={P} X={X[:6]} est.err {np.max(err):.2e}")
    alpha = get(p, "thermal_expansion_coeff")
    kappa = get(p, "isothermal_compressibility")
    def back():
        setTPX(p, T, P, X)
    if not Tk and T - 2 * dT > 0:
        try:
            D = fd(lambda t: setTPX(p, t, P, X), dT, T)
        finally:
            back()
        dclose("cp=dh/dT", D["enthalpy_mole"], cp, R)
        if s is not None and cp is not None:
            dclose("cp=T ds/dT", D["entropy_mole"], cp / T, R / T)
        if s is not None:
            dclose("s=-dg/dT", D["gibbs_mole"], -s, R)
        dclose("cpk=dhk/dT", D["partial_molar_enthalpies"], cpk, R)
        if sk is not None:
            dclose("sk=-dmuk/dT", D["chemical_potentials"], -sk, R)
        if D["standard_enthalpies_RT"] and cps is not None:
            val, err = D["standard_enthalpies_RT"]
            # d(h/RT)/dT = cp/(RT) - h/(RT)/T
            dclose("cp0=dh0/dT", (val * T + hs, err * T), cps, 1 + np.abs(hs) * 1e-3)
        if D["standard_gibbs_RT"] and hs is not None:
            val, err = D["standard_gibbs_RT"]
            dclose("h0=-T2d(g0/T)/dT", (val * T, err * T), -hs, 1 + np.abs(hs) * 1e-3)
        dvdT, edv = D["volume_mole"]
        if alpha is not None and abs(alpha) < 1e10:
            dclose("alpha=dv/dT/v", (dvdT / v, edv / v), alpha, 1e-2 / T)
    else:
        D = None
    try:
        DP = fd(lambda q: setTPX(p, T, q, X), dP, P)
    finally:
        back()
    dvdP, edp = DP["volume_mole"]
    if kappa is not None and abs(kappa) < 1e10:
        dclose("kappa=-dv/dP/v", (-dvdP / v, edp / v), kappa, 1e-6 / P if p.is_compressible else 1e-7 / P)
    if not surfish:
        dclose("v=dg/dP", DP["gibbs_mole"], v, 0)
        if vk is not None:
            dclose("vk=dmuk/dP", DP["chemical_potentials"], vk, 0)
    if D is not None and not surfish:
        if DP["entropy_mole"]:
            val, err = DP["entropy_mole"]
            dclose("ds/dP=-dv/dT", (val, err + edv), -dvdT, v * 1e-3 / T)
        if DP["enthalpy_mole"]:
            val, err = DP["enthalpy_mole"]
            dclose("dh/dP=v-Tdv/dT", (val, err + T * edv), v - T * dvdT, v)
    # ---- cp - cv
    if (alpha is not None and kappa is not None and cv is not None and cp is not None and kappa > 0
            and np.isfinite(alpha) and np.isfinite(kappa) and alpha < 1e10 and kappa < 1e10):
        close("cp-cv", cp - cv, T * v * alpha**2 / kappa, 100 * rt, 100 * rt * R)
        try:
            cs = p.sound_speed
        except NotImplementedError:
            cs = None
        if cs is not None and cv > 0 and cp > 0:
            close("sound-speed", cs**2, cp / (cv * p.density_mass * kappa), 100 * rt, 0)
    # ---- compressible phases: derivatives at constant density
    if p.is_compressible and not Tk and cv is not None:
        rho = p.density_mass
        two = False
        def setTD(t):
            p.TDX = t, rho, X
        if p.thermo_model == "pure-fluid" and T < 1.02 * p.critical_temperature:
            # stay on one side of the saturation line at T +- 2 dT as well
            for t in (T - 2 * dT, T + 2 * dT):
                p.TDX = t, rho, X
                two |= 0 < p.Q < 1
            back()
        for t in (T - 2 * dT, T + 2 * dT):
            p.TDX = t, rho, X
            two |= not p.P > 0
        back()
        if not two:
            try:
                DV = fd(setTD, dT, T)
            finally:
                back()
        else:
            DV = None
    else:
        DV = None
    if DV:
        dclose("cv=du/dT", DV["int_energy_mole"], cv, R)
        dclose("cv=Tds/dT", (DV["entropy_mole"][0] * T, DV["entropy_mole"][1] * T), cv, R)
    # ---- composition derivatives
    # (B-dot Debye-Hueckel coefficients do not derive from one excess Gibbs function when
    # ions differ in charge or size: a property of the published model)
    # (the same holds for the activities theta_k of surface species of different sizes)
    bdot = surfish and len({sp.get("sites", 1) for sp in (c["d"]["yaml"]["species"] if "d" in c else [])}) > 1
    bdot |= p.thermo_model == "Debye-Huckel" and (p.input_data or {}).get("activity-data", {}).get("model", "").startswith("B-dot")
    if n > 1 and p.thermo_model not in ("coverage-dependent-surface", "binary-solution-tabulated") and not bdot:
        dirs = []
        if molal:
            # electroneutral directions: solvent, each neutral, each cation-anion pair
            ch = p.charges
            pos = [k for k in range(n) if ch[k] > 0 and X[k] > 1e-7]
            neg = [k for k in range(n) if ch[k] < 0 and X[k] > 1e-7]
            for k in range(n):
                if ch[k] == 0 and X[k] > 1e-7:
                    e_ = np.zeros(n); e_[k] = 1; dirs.append((k, e_))
            for i in pos:
                for j in neg:
                    e_ = np.zeros(n); e_[i] = -ch[j]; e_[j] = ch[i]; dirs.append((i, e_ / e_.sum()))
        else:
            for k in range(n):
                if X[k] > 1e-6:
                    e_ = np.zeros(n); e_[k] = 1; dirs.append((k, e_))
        if dirs:
            k, ev = dirs[c["dir"] % len(dirs)]
            live = ev > 0
            dx = min(2e-4, float(np.min(X[live] / ev[live])) / 10)
            if knots:
                # tabulated data: stay inside one segment
                m = min(abs(X[i] - q) for q in knots for i in (0,))
                dx = min(dx, m / 4)
            if dx > 1e-8:
                tot = {}
                try:
                    sn = {}
                    for i in (-2, -1, 1, 2):
                        setTPX(p, T, P, X + i * dx * ev)
                        sn[i] = snap(p, SC + ["chemical_potentials"])
                finally:
                    back()
                def ext(name, par, sig, sc):
                    if b[par] is None or any(sn[i][name] is None for i in sn):
                        return
                    f = {i: sn[i][name] * (1 + i * dx) for i in sn}
                    d1 = (f[1] - f[-1]) / (2 * dx)
                    d2 = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * dx)
                    mag = abs(b[name])
                    err = 0.2 * abs(d1 - d2) + 40 * 2.3e-16 * mag / dx + (rt * 1e-5 * mag / dx if rt > 1e-6 else 0)
                    close(sig, d2, float(np.dot(ev, b[par])), 10 * rt, err + 10 * rt * sc, f"T={T} P={P} X={X[:6]} along {k}, est.err {err:.2e}")
                ext("gibbs_mole", "chemical_potentials", "mu=d(nG)/dn", RT)
                ext("enthalpy_mole", "partial_molar_enthalpies", "hk=d(nH)/dn", RT)
                ext("entropy_mole", "partial_molar_entropies", "sk=d(nS)/dn", R)
                ext("volume_mole", "partial_molar_volumes", "vk=d(nV)/dn", v)
                if mu is not None and all(sn[i]["chemical_potentials"] is not None for i in sn):
                    f = {i: float(np.dot(X[nz], sn[i]["chemical_potentials"][nz])) for i in sn}
                    # Gibbs-Duhem: sum_j X_j dmu_j = 0
                    d1 = (f[1] - f[-1]) / (2 * dx)
                    d2 = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * dx)
                    err = 0.2 * abs(d1 - d2) + 40 * 2.3e-16 * wabs(mu) / dx + (rt * 1e-5 * wabs(mu) / dx if rt > 1e-6 else 0)
                    close("Gibbs-Duhem", d2, 0.0, 0, err + 10 * rt * RT, f"X={X[:6]} along {k}")
    if cnt[0] >= 8:
        rec.hit(tag)
