"""P07: pure fluids: liquid and vapor in equilibrium, and the surface P(T, v), h, s, u, g they lie on.
saturation: generated saturated states; equal chemical potentials, lever rule, Clapeyron equation, inverse functions, phase labels.
surface: single-phase states; Maxwell relations by finite differences along T and v, stability, continuity across the dome.
water: two independent formulations of the properties of water agree."""
import math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
from gen import uni, logu

FL = ["water", "nitrogen", "methane", "hydrogen", "oxygen", "carbon-dioxide", "heptane", "HFC-134a"]
# accuracy of the equality of the chemical potentials, limited by the stopping tolerance of the solver
_pool = {}
def fluid(f):
    if f not in _pool:
        _pool[f] = ct.PureFluid("liquidvapor.yaml", f)
    return _pool[f]
EXTENSIVE = ["h", "u", "s", "g", "v"]

@st.composite
def sat_case(draw):
    return {"f": draw(st.sampled_from(FL)), "t": draw(uni(0.0, 1.0)), "q": draw(uni(0.0, 1.0)), "prev": [draw(uni(0, 1)), draw(uni(0, 1))],
            "how": draw(st.sampled_from(["TQ", "PQ", "TPQ", "TV", "PV", "HP", "SP", "ST", "UV"])), "basis": draw(st.sampled_from(["mass", "molar"]))}

def trange(p):
    # (the equation of state of heptane is not usable at low temperature, where its heat capacity is negative)
    lo = 0.48 * p.critical_temperature if p.name == "heptane" else p.min_temp
    return lo * 1.002, p.critical_temperature * 0.985

def vals(p):
    return np.array([getattr(p, k) for k in EXTENSIVE])

@sub("P07", "saturation", sat_case, quick=2500, thorough=80000, shards=2, tshards=6, floor=0.8,
     rule="saturated states of eight fluids between the triple and 0.985 of the critical temperature")
def saturation(c, rec):
    p = fluid(c["f"])
    p.basis = c["basis"]
    lo, hi = trange(p)
    M = p.mean_molecular_weight if c["basis"] == "mass" else 1.0
    R = ct.gas_constant / M
    # a previous state must not matter
    p.TQ = lo + c["prev"][0] * (hi - lo), c["prev"][1]
    T, q = lo + c["t"] * (hi - lo), c["q"]
    p.TQ = T, 0.0; P = p.P; L = vals(p)
    rec.close("P_sat", p.P_sat, P, 1e-9)
    p.TQ = T, 1.0; V = vals(p)
    m = f"{c['f']} T={T} q={q}"
    rec.close("one pressure", p.P, P, 1e-9, 0, m)
    rec.close("equal chemical potentials", (V[3] - L[3]) / (R * T), 0.0, 0, 2e-4, m)
    rec.close("latent heat", V[0] - L[0], T * (V[2] - L[2]), 1e-9, 3e-4 * R * T, m)
    rec.check("vapor is less dense", V[4] > L[4] > 0, m)
    rec.check("latent heat positive", V[0] > L[0], m)
    # Clapeyron, with the step chosen from the curvature
    d = 1e-3 * T
    pp = []
    for t in (T - d, T + d):
        if not lo / 1.001 < t < p.critical_temperature:
            break
        p.TQ = t, 0.0
        pp.append(p.P)
    if len(pp) == 2:
        rec.close("Clapeyron", (math.log(pp[1]) - math.log(pp[0])) / (2 * d) * P * (V[4] - L[4]), V[2] - L[2], 4e-3, 0, m)
        rec.check("P_sat rises", pp[0] < P < pp[1], m)
    # lever rule
    mix = (1 - q) * L + q * V
    how = c["how"]
    arg = {"T": T, "P": P, "Q": q, **dict(zip("HUSGV", mix))}
    scale = {"H": R * T, "U": R * T, "S": R}
    try:
        setattr(p, how, tuple(arg[k] for k in how))
    except ct.CanteraError as e:
        if how == "UV" or q < 1e-3 or q > 1 - 1e-3:
            rec.skip("at the edge of the dome")
        rec.fail("sets " + how, m + " " + str(e)[:200])
    if how not in ("TQ", "PQ", "TPQ") and (q < 1e-3 or q > 1 - 1e-3):
        return
    rec.close(how + " T", p.T, T, 1e-5, 0, m)
    rec.close(how + " P", p.P, P, 1e-4 if how != "UV" else 1e-3, 0, m)
    iterated = how in ("UV",)
    sp = abs(V - L) + np.array([R * T, R * T, R, R * T, 0])
    rec.close(how + " lever rule", (vals(p) - mix) / sp, np.zeros(5), 0, 3e-5 if not iterated else 1e-3, m)
    rec.close(how + " quality", p.Q, q, 0, 1e-4 if not iterated else 1e-3, m)
    rec.close("volume and density", p.v * p.density, 1.0, 1e-12)
    if 1e-3 < q < 1 - 1e-3:
        rec.check("phase", p.phase_of_matter == "liquid-gas-mix", m + p.phase_of_matter)
        rec.check("infinite cp", not math.isfinite(p.cp), m)
        rec.check("infinite expansion", not math.isfinite(p.thermal_expansion_coeff) and not math.isfinite(p.isothermal_compressibility), m)
        rec.close("P_sat inside", p.P_sat, p.P, 1e-6, 0, m)
        rec.close("T_sat inside", p.T_sat, p.T, 1e-5, 0, m)
    # the inverse of the vapor pressure, from a single-phase state
    p.TP = T, P * 0.9
    rec.check("vapor", p.phase_of_matter == "gas" and p.Q == 1.0, m)
    rec.close("P_sat(T)", p.P_sat, P, 1e-6, 0, m)
    p.TP = T, max(P * 1.1, P + 1e5)
    rec.check("liquid", p.P > p.critical_pressure or p.phase_of_matter == "liquid" and p.Q == 0.0, m)
    rec.close("P_sat(T)", p.P_sat, P, 1e-6, 0, m)
    if T < 0.999 * hi:
        p.TP = hi, P
        rec.close("T_sat(P)", p.T_sat, T, 1e-5, 0, m)
    rec.hit(c["f"]); rec.label(how)

@st.composite
def surf_case(draw):
    return {"f": draw(st.sampled_from(FL)), "t": draw(uni(0.0, 1.0)), "reg": draw(st.sampled_from(["liquid", "vapor", "super", "gas"])), "r": draw(uni(0.01, 1.0))}

@sub("P07", "surface", surf_case, quick=2500, thorough=80000, shards=2, tshards=6, floor=0.8,
     rule="liquid, vapor and supercritical states given by temperature and volume")
def surface(c, rec):
    p = fluid(c["f"])
    p.basis = "mass"
    lo, hi = trange(p)
    Tc, Pc = p.critical_temperature, p.critical_pressure
    R = ct.gas_constant / p.mean_molecular_weight
    vc = 1 / p.critical_density
    if c["reg"] in ("liquid", "vapor"):
        T = lo + c["t"] * (hi - lo)
        p.TQ = T, float(c["reg"] == "vapor"); v0, Ps = p.v, p.P
        v = v0 * (1 - 0.06 * c["r"]) if c["reg"] == "liquid" else v0 / (1 - 0.95 * c["r"]) * 1.002
        if c["reg"] == "liquid":
            v *= 0.999
    else:
        T = Tc * (1.03 + c["t"] * {"HFC-134a": 0.17, "heptane": 0.15}.get(c["f"], 0.9))
        T = min(T, 0.99 * p.max_temp)
        v = vc * (0.45 + c["r"] * 2 if c["reg"] == "super" else 2 / c["r"])
    m = f"{c['f']} {c['reg']} T={T} v={v}"
    p.TV = T, v
    P = p.P
    rec.close("TV", [p.T, p.v], [T, v], 1e-12)
    rec.close("h", p.h, p.u + P * p.v, 1e-10, 1e-9 * R * T, m)
    rec.close("g", p.g, p.h - T * p.s, 1e-10, 1e-9 * R * T, m)
    if c["reg"] == "liquid" and P < Ps:
        rec.fail("compressed liquid above P_sat", m)
    if c["reg"] == "vapor" and P > Ps:
        rec.fail("vapor below P_sat", m)
    cp, cv, kT, al = p.cp, p.cv, p.isothermal_compressibility, p.thermal_expansion_coeff
    def at(T, v):
        p.TV = T, v
        return np.array([p.P, p.u, p.s])
    dT, dv = 1e-4 * T, 1e-4 * v
    if c["reg"] in ("liquid", "vapor"):
        # stay on the same side of the dome
        for s in (-1, 1):
            if T + s * dT < lo:
                return rec.skip("at the triple point")
            p.TQ = T + s * dT, float(c["reg"] == "vapor")
            if (p.v < v) == (c["reg"] == "liquid"):
                return rec.skip("at the dome")
    A, B = at(T - dT, v), at(T + dT, v)
    C, D = at(T, v - dv), at(T, v + dv)
    dPdT, dudT, dsdT = (B - A) / (2 * dT)
    dPdv, dudv, dsdv = (D - C) / (2 * dv)
    # scales: the terms of which the derivatives are made
    sP = R / v
    # (the ideal-gas properties of hydrogen are integrated from a table)
    rec.close("du = T ds at constant volume", dudT, T * dsdT, 1e-6 if c["f"] != "hydrogen" else 1e-4, 1e-6 * R, m)
    rec.close("(ds/dv)_T = (dP/dT)_v", dsdv, dPdT, 1e-5, 3e-5 * sP, m)
    rec.close("(du/dv)_T = T (dP/dT)_v - P", dudv, T * dPdT - P, 1e-5, 3e-5 * (sP * T + P), m)
    rec.close("cv", cv, dudT, 1e-4, 1e-4 * R, m)
    rec.check("cv positive", cv > 0, m)
    if dPdv < -1e-3 * P / v:
        rec.close("isothermal compressibility", kT, -1 / (v * dPdv), 3e-3, 0, m)
        rec.close("expansion coefficient", al, -dPdT / dPdv / v, 5e-3, 1e-5 / T, m)
        rec.close("cp - cv", cp - cv, -T * dPdT ** 2 / dPdv, 1e-2, 3e-3 * R, m)
    else:
        rec.check("stable", dPdv < 1e-6 * P / v, m)
    # the same state from T, P
    if P > 1e4:
        p.TP = T * 0.999, P * 1.001 + 1e3
        p.TP = T, P
        if dPdv < -1e-2 * P / v:
            rec.close("TP", p.v, v, 1e-5, 0, m)
    # low density limit
    if c["reg"] in ("vapor", "gas"):
        p.TV = T, 50 * v + vc * 3e4
        rec.close("ideal-gas limit", p.P * p.v / (R * T), 1.0, 5e-4, 0, m)
    rec.hit(c["f"]); rec.label(c["reg"])

@st.composite
def water_case(draw):
    return {"T": draw(uni(280, 640)), "r": draw(uni(0.0, 1.0)), "reg": draw(st.sampled_from(["liquid", "vapor"]))}

@sub("P07", "water", water_case, quick=500, thorough=10000, shards=1, tshards=2, floor=0.8,
     rule="states of water from two formulations")
def water(c, rec):
    """The IAPWS-95 and Reynolds formulations differ by less than their accuracy"""
    a = fluid("water"); a.basis = "mass"
    if "w" not in _pool:
        _pool["w"] = ct.Water("IAPWS95") if False else ct.Solution("liquidvapor.yaml", "liquid-water-IAPWS95")
    b = _pool["w"]
    T = c["T"]
    a.TQ = T, 0.0
    P = a.P * (1.05 + 20 * c["r"])
    P = min(P, 1e8)
    m = f"T={T} P={P}"
    a.TP = T, P; b.TP = T, P
    k = 1.0 + 10 * max(0.0, (T - 560) / 80)
    rec.close("density", b.density, a.density, 3e-3 * k, 0, m)
    rec.close("cp", b.cp_mass, a.cp_mass, 2e-2 * k, 0, m)
    ha, sa = a.h, a.s; hb, sb = b.enthalpy_mass, b.entropy_mass
    a.TP = 300.0, 1e6; b.TP = 300.0, 1e6
    rec.close("enthalpy", hb - b.enthalpy_mass, ha - a.h, 3e-3 * k, 1500.0, m)
    rec.close("entropy", sb - b.entropy_mass, sa - a.s, 3e-3 * k, 5.0, m)
    rec.hit()
