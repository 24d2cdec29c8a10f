"""P05: species reference-state thermodynamics follow the documented parametrizations.
Oracle: the formulas of the parametrizations (gen.ref_thermo), written independently of the
library, for species alone and among others in a phase.  Non-trivial: at least two kinds of
parametrization or two temperature zones."""
import json, ctypes, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, cxx
from gen import uni, logu
R = ct.gas_constant

def zones(th):
    return len(th["data"]) if isinstance(th.get("data"), list) else len(th.get("data", {})) or 1

@st.composite
def case(draw):
    pref = draw(st.sampled_from([None, 1e5, 101325.0, 2e5]))
    sp = []
    for i in range(draw(st.integers(1, 6))):
        th = dict(draw(gen.any_thermo()))
        th.pop("reference-pressure", None)
        if pref:
            th["reference-pressure"] = pref
        sp.append({"name": f"S{i}", "composition": draw(gen.composition()), "thermo": th})
    Ts = []
    knots = sorted({float(t) for s in sp for t in (s["thermo"].get("temperature-ranges") or []) if 300 < t < 3500}
                   | {float(t) for s in sp if s["thermo"]["model"] == "piecewise-Gibbs" for t in s["thermo"]["data"]})
    for _ in range(draw(st.integers(2, 6))):
        if knots and draw(st.booleans()):
            k = draw(st.sampled_from(knots))
            Ts.append(k + draw(st.sampled_from([-0.01, 0.01, -5.0, 5.0, 0.5])))
        else:
            Ts.append(1.000037 * draw(uni(260, 3500)))
    perm = draw(st.permutations(range(len(sp))))
    mods = draw(st.lists(st.tuples(st.integers(0, 5), st.one_of(st.none(), uni(-4e8, 4e8))), max_size=4))
    return {"sp": sp, "T": Ts, "P": draw(logu(1e3, 1e7)), "perm": list(perm), "mods": mods, "scale": draw(st.sampled_from(["", "", "kcal", "kJ"]))}

UN = {"kcal": ({"energy": "kcal", "quantity": "mol", "pressure": "atm"}, 4184.0 * 1000, 101325.0), "kJ": ({"energy": "kJ", "quantity": "mol", "pressure": "bar"}, 1e6, 1e5)}

def in_units(th, scale):
    """The same data written in other units."""
    if not scale:
        return th
    _, e, p = UN[scale]
    th = json.loads(json.dumps(th))
    if "reference-pressure" in th:
        th["reference-pressure"] /= p
    for k in ("h0", "s0", "cp0"):
        if k in th:
            th[k] /= e
    if th["model"] == "piecewise-Gibbs" and not th.get("dimensionless"):
        th["data"] = {k: v / e for k, v in th["data"].items()}
    return th

def doc(sp, scale):
    d = {"phases": [{"name": "g", "thermo": "ideal-gas", "species": [s["name"] for s in sp]}],
         "species": [dict(s, thermo=in_units(s["thermo"], scale)) for s in sp]}
    if scale:
        d = dict({"units": UN[scale][0]}, **d)
    return d

def want(sp, T):
    return np.array([gen.ref_thermo(s["thermo"], T) for s in sp]).T

def near(rec, tag, got, ref, T, msg):
    """cp/R, h/RT, s/R: terms of the polynomials cancel, hence the absolute parts."""
    for n, a, b in zip(("cp", "h", "s"), got, ref):
        at = 1e-9 * (30 + (np.abs(ref[1]) if n == "h" else 0))
        rec.close(f"{tag}:{n}", a, b, 1e-9, at, f"{msg} at {T} K")

@sub("P05", "species", case, quick=1500, thorough=60000, shards=3, tshards=8, floor=0.6,
     rule="heat capacity, enthalpy and entropy of species with every parametrization, alone, through their coefficients and within phases that mix them")
def species(c, rec):
    sp = c["sp"]
    kinds = [s["thermo"]["model"] for s in sp]
    g = ct.Solution(yaml=json.dumps(doc(sp, c["scale"])))
    h = ct.Solution(yaml=json.dumps(doc([sp[i] for i in c["perm"]], c["scale"])))
    pref = sp[0]["thermo"].get("reference-pressure", 101325.0)
    rec.close("reference pressure", g.reference_pressure, pref, 1e-12)
    X = np.ones(len(sp)) / len(sp)
    for T in c["T"]:
        w = want(sp, T)
        rec.check("finite reference", np.isfinite(w).all())
        g.TPX = T, c["P"], X
        h.TPX = T, c["P"], X
        near(rec, "phase", (g.standard_cp_R, g.standard_enthalpies_RT, g.standard_entropies_R + math.log(c["P"] / pref)), w, T, f"{kinds}")
        rec.close("phase:g", g.standard_gibbs_RT, w[1] - w[2] + math.log(c["P"] / pref), 1e-9, 1e-9 * (60 + np.abs(w[1])), f"{kinds} at {T}")
        for n in ("standard_cp_R", "standard_enthalpies_RT", "standard_entropies_R"):
            rec.close(f"order:{n}", getattr(g, n)[c["perm"]], getattr(h, n), 1e-13, 1e-13, f"{kinds}")
        for k, s in enumerate(sp):
            th = g.species(k).thermo
            near(rec, f"species:{kinds[k]}", (th.cp(T) / R, th.h(T) / (R * T), th.s(T) / R), w[:, k], T, kinds[k])
    for k, s in enumerate(sp):
        th = g.species(k).thermo
        t = s["thermo"]
        if "temperature-ranges" in t:
            rec.close("min_temp", th.min_temp, t["temperature-ranges"][0], 1e-13)
            rec.close("max_temp", th.max_temp, t["temperature-ranges"][-1], 1e-13)
            rec.close("phase min_temp", g.min_temp >= th.min_temp and g.max_temp <= th.max_temp, True)
        rec.close("species P_ref", th.reference_pressure, pref, 1e-12)
        # coefficients describe the species
        # (as in the documentation of the Python class)
        co = np.array(th.coeffs)
        lo, hi = th.min_temp, th.max_temp
        if type(th) is ct.SpeciesThermo:
            rec.label("no Python class")
            continue
        new = type(th)(lo, hi, pref, co)
        for T in c["T"]:
            near(rec, f"coeffs:{kinds[k]}", (new.cp(T) / R, new.h(T) / (R * T), new.s(T) / R), gen.ref_thermo(t, T), T, f"{kinds[k]} {co}")
        s2 = ct.Species("X", s["composition"])
        s2.thermo = new
        q = ct.Solution(thermo="ideal-gas", species=[s2])
        q.TP = c["T"][0], c["P"]
        near(rec, f"species object:{kinds[k]}", (q.standard_cp_R[0], q.standard_enthalpies_RT[0], q.standard_entropies_R[0] + math.log(c["P"] / pref)), gen.ref_thermo(t, c["T"][0]), c["T"][0], kinds[k])
    if len(set(kinds)) > 1 or max(zones(s["thermo"]) for s in sp) > 1:
        rec.hit("/".join(sorted(set(kinds)))[:60])
    else:
        rec.label("plain")

HF = ("NASA7", "Shomate", "constant-cp")     # others refuse (NotImplementedError)

@sub("P05", "heat of formation", case, quick=700, thorough=20000, shards=1, tshards=6, floor=0.2,
     rule="changes of heats of formation shift the enthalpy of the species meant, and only that, at every temperature, and can be undone")
def hf(c, rec):
    sp = c["sp"]; n = len(sp)
    # the standard heat of formation is the reference enthalpy at 298.15 K
    L = cxx.lib()
    L.vp_modifyHf298.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_double]
    i = cxx.ok(L.vp_solution(json.dumps(doc(sp, c["scale"])).encode(), b"none"))
    try:
        out = [cxx.arr(np.zeros(n)) for _ in range(4)]
        X = cxx.arr(np.ones(n) / n)
        one = ctypes.c_double()
        H298 = {k: gen.ref_thermo(s["thermo"], 298.15)[1] * R * 298.15 for k, s in enumerate(sp)}
        dH = np.zeros(n)
        kinds = [s["thermo"]["model"] for s in sp]
        pref = sp[0]["thermo"].get("reference-pressure", 101325.0)
        L.vp_setTPX.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_double, type(X[1])]
        def verify(tag):
            for T in c["T"]:
                cxx.ok(L.vp_setTPX(i, T, c["P"], X[1]))
                w = want(sp, T)
                w[1] += dH / (R * T)
                cxx.ok(L.vp_reference(i, *[o[1] for o in out[:3]]))
                near(rec, f"{tag}:reference", [o[0] for o in out[:3]], w, T, f"{kinds}")
                cxx.ok(L.vp_standard(i, *[o[1] for o in out]))
                near(rec, f"{tag}:standard", (out[0][0], out[1][0], out[2][0] + math.log(c["P"] / pref)), w, T, f"{kinds}")
            for k in range(n):
                if kinds[k] not in HF:
                    continue
                cxx.ok(L.vp_hf298(i, k, ctypes.byref(one)))
                rec.close(f"{tag}:Hf298", one.value, H298[k] + dH[k], 1e-9, 1e-8 * (abs(H298[k]) + 1e6), f"{kinds[k]}")
        verify("start")
        hit = None
        for k, v in c["mods"]:
            k %= n
            if kinds[k] not in HF:
                try:
                    cxx.ok(L.vp_modifyHf298(i, k, v) if v is not None else L.vp_resetHf298(i, k))
                    rec.fail("unavailable", f"{kinds[k]}: change of the heat of formation accepted")
                except cxx.Error as e:
                    rec.check("unavailable", "NotImplemented" in str(e), str(e)[:200])
                verify("refused")
                continue
            if v is None and c["P"] > 1e5 and set(kinds) - set(HF):
                continue
            if v is None:
                all_ = c["P"] > 1e5
                cxx.ok(L.vp_resetHf298(i, -1 if all_ else k))
                if all_:
                    dH[:] = 0
                else:
                    dH[k] = 0
            else:
                cxx.ok(L.vp_modifyHf298(i, k, v))
                dH[k] = v - H298[k]
            verify("changed" if v is not None else "restored")
            hit = kinds[k]
        if hit:
            rec.hit(hit)
    finally:
        L.vp_free(i)
