"""Generator of balanced reaction mechanisms."""
import itertools, math
from functools import lru_cache
from hypothesis import strategies as st
from gen import uni, logu, sig, nasa7, nasa9, shomate, constcp, fractions, R

POOL = {"H": {"H": 1}, "O": {"O": 1}, "H2": {"H": 2}, "O2": {"O": 2}, "OH": {"H": 1, "O": 1}, "H2O": {"H": 2, "O": 1},
        "HO2": {"H": 1, "O": 2}, "H2O2": {"H": 2, "O": 2}, "N": {"N": 1}, "N2": {"N": 2}, "NO": {"N": 1, "O": 1},
        "NO2": {"N": 1, "O": 2}, "NH": {"N": 1, "H": 1}, "AR": {"Ar": 1}, "CO": {"C": 1, "O": 1},
        "CO2": {"C": 1, "O": 2}, "CH3": {"C": 1, "H": 3}, "CH4": {"C": 1, "H": 4}, "O2x": {"O": 2}, "C2H6": {"C": 2, "H": 6}}
SETS = [["H", "H2", "O2", "O", "OH", "H2O", "HO2", "AR"], ["H2", "H", "AR", "O2", "OH", "O"], ["N2", "O2", "NO", "N", "O", "NO2"],
        ["CO", "CO2", "O2", "O", "AR"], ["CH3", "C2H6", "CH4", "H", "H2"], ["O2", "O2x", "O", "AR"],
        ["H2", "O2", "H2O", "H2O2", "OH", "HO2", "H", "O", "N2"], ["N", "NH", "H", "N2", "H2", "AR", "NO", "OH", "O"]]

@lru_cache(maxsize=None)
def balanced(names, maxr=3, maxp=3):
    """All (reactants, products) pairs with equal element content and no common species."""
    groups = {}
    for r in range(1, max(maxr, maxp) + 1):
        for ms in itertools.combinations_with_replacement(names, r):
            comp = {}
            for s in ms:
                for e, k in POOL[s].items():
                    comp[e] = comp.get(e, 0) + k
            groups.setdefault(tuple(sorted(comp.items())), []).append(ms)
    out = []
    for g in groups.values():
        for a in g:
            for b in g:
                if a != b and len(a) <= maxr and len(b) <= maxp and not set(a) & set(b):
                    out.append((a, b))
    out.sort(key=lambda p: (len(p[0]) + len(p[1]), p))
    return out

def side(ms):
    parts = []
    for s in sorted(set(ms), key=ms.index):
        k = ms.count(s)
        parts.append((f"{k} " if k > 1 else "") + s)
    return " + ".join(parts)

@st.composite
def transport(draw, comp):
    n = sum(comp.values())
    geo = "atom" if n == 1 else "linear" if n == 2 else draw(st.sampled_from(["linear", "nonlinear"]))
    d = {"model": "gas", "geometry": geo, "diameter": draw(uni(2.0, 4.5, 1000)), "well-depth": draw(uni(10, 600, 1000))}
    if draw(st.integers(0, 3)) == 0:
        d["dipole"] = draw(uni(0.1, 2.5, 1000))
    if draw(st.booleans()):
        d["polarizability"] = draw(uni(0.1, 4, 1000))
    if geo != "atom":
        d["rotational-relaxation"] = draw(uni(0.5, 20, 1000))
    return d

@st.composite
def arr(draw, order, neg=False):
    lo, hi = {1: (1e3, 1e12), 2: (1e5, 1e11), 3: (1e5, 1e13)}.get(order, (1e5, 1e10))
    return {"A": draw(logu(lo, hi)), "b": draw(st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, 2.0, -0.37])),
            "Ea": draw(st.one_of(st.just(0.0), uni(0, 2e8), uni(-2e7, 0)))}

TYPES = ["elementary", "elementary", "elementary", "three-body", "three-body", "Lindemann", "Troe", "SRI", "Tsang", "chem-act",
         "plog", "chebyshev", "Blowers-Masel", "linear-Burke", "collider"]

@st.composite
def effs(draw, names):
    e = {}
    for s in names:
        if draw(st.integers(0, 2)) == 0:
            e[s] = draw(st.sampled_from([0.0, 0.5, 2.4, 6.0, 16.0]))
    return e

@st.composite
def reaction(draw, names, eqs, types=TYPES, orders=True):
    """One reaction entry, or None when the drawn combination does not apply."""
    a, b = eqs[draw(st.integers(0, len(eqs) - 1))]
    t = draw(st.sampled_from(types))
    rev = draw(st.integers(0, 3)) > 0
    arrow = " <=> " if rev else " => "
    L, Rr = side(a), side(b)
    n = len(a)
    d = {}
    if t in ("three-body",):
        if n > 2:
            return None
        d = {"equation": f"{L} + M{arrow}{Rr} + M", "type": "three-body", "rate-constant": draw(arr(n + 1)),
             "efficiencies": draw(effs(names))}
        if draw(st.integers(0, 3)) == 0:
            d["default-efficiency"] = draw(st.sampled_from([0.0, 0.5, 2.0]))
    elif t == "collider":
        if n > 2:
            return None
        cand = [s for s in names if s not in a and s not in b]
        if not cand:
            return None
        c = draw(st.sampled_from(cand))
        d = {"equation": f"{L} + {c}{arrow}{Rr} + {c}", "rate-constant": draw(arr(n + 1))}
        if draw(st.booleans()):
            d["type"] = "three-body"
    elif t in ("Lindemann", "Troe", "SRI", "Tsang", "chem-act"):
        if n > 2:
            return None
        M = "M"
        e = draw(effs(names))
        if draw(st.integers(0, 4)) == 0:
            M = draw(st.sampled_from(names)); e = {}
        d = {"equation": f"{L} (+{M}){arrow}{Rr} (+{M})",
             "type": "chemically-activated" if t == "chem-act" else "falloff"}
        hi, lo = draw(arr(n)), draw(arr(n + 1))
        if t == "chem-act":
            # low-pressure limit has the order of the bimolecular channel
            lo, hi = draw(arr(n)), draw(arr(max(n - 1, 1)))
            hi["A"] = draw(logu(1e3, 1e9))
        d["low-P-rate-constant"], d["high-P-rate-constant"] = lo, hi
        if e:
            d["efficiencies"] = e
        shape = t if t != "chem-act" else draw(st.sampled_from(["Lindemann", "Troe", "SRI"]))
        if shape == "Troe":
            d["Troe"] = {"A": draw(uni(0.0, 1.0, 1000)), "T3": draw(logu(10, 1e4)), "T1": draw(logu(50, 1e4))}
            if draw(st.booleans()):
                d["Troe"]["T2"] = draw(logu(100, 1e5))
        elif shape == "SRI":
            d["SRI"] = {"A": draw(uni(0.1, 2, 1000)), "B": draw(uni(-200, 1000, 1000)), "C": draw(uni(100, 2000, 1000))}
            if draw(st.booleans()):
                d["SRI"].update(D=draw(uni(0.5, 2, 1000)), E=draw(uni(-0.5, 0.5, 1000)))
        elif shape == "Tsang":
            d["Tsang"] = {"A": draw(uni(0.3, 1.0, 1000)), "B": draw(st.sampled_from([0.0, 5e-5, -8e-5]))}
    elif t == "plog":
        ps = sorted(draw(st.lists(st.sampled_from([1e2, 1e3, 1e4, 101325.0, 1e6, 1e7]), min_size=1, max_size=4, unique=True)))
        rates = []
        for p in ps:
            for _ in range(draw(st.sampled_from([1, 1, 2]))):
                rates.append({"P": p, **draw(arr(n))})
        d = {"equation": f"{L}{arrow}{Rr}", "type": "pressure-dependent-Arrhenius", "rate-constants": rates}
    elif t == "chebyshev":
        nT, nP = draw(st.integers(1, 4)), draw(st.integers(1, 3))
        data = [[draw(uni(-1, 1, 1000)) for _ in range(nP)] for _ in range(nT)]
        data[0][0] = draw(uni(2, 9, 1000))
        d = {"equation": f"{L}{arrow}{Rr}", "type": "Chebyshev", "temperature-range": [300.0, 3000.0],
             "pressure-range": [1e3, 1e7], "data": data}
    elif t == "Blowers-Masel":
        k = draw(arr(n))
        d = {"equation": f"{L}{arrow}{Rr}", "type": "Blowers-Masel",
             "rate-constant": {"A": k["A"], "b": k["b"], "Ea0": draw(uni(1e6, 1.5e8)), "w": draw(uni(3e8, 2e9))}}
    elif t == "linear-Burke":
        if n > 2:
            return None
        form = draw(st.sampled_from(["plog", "Troe", "chebyshev"]))
        def sub():
            if form == "plog":
                return {"type": "pressure-dependent-Arrhenius",
                        "rate-constants": [{"P": p, **draw(arr(n))} for p in (1e3, 1e5, 1e7)]}
            if form == "Troe":
                return {"type": "falloff", "low-P-rate-constant": draw(arr(n + 1)), "high-P-rate-constant": draw(arr(n)),
                        "Troe": {"A": draw(uni(0.1, 1.0, 1000)), "T3": draw(logu(10, 1e4)), "T1": draw(logu(50, 1e4))}}
            return {"type": "Chebyshev", "temperature-range": [300.0, 3000.0], "pressure-range": [1e3, 1e7],
                    "data": [[draw(uni(2, 9, 1000)), 0.3], [draw(uni(-1, 1, 1000)), 0.1]]}
        cols = [{"name": "M", **sub()}]
        for s in names[:4]:
            if draw(st.integers(0, 2)) == 0:
                c = {"name": s, "efficiency": {"A": draw(uni(0.3, 8, 1000)), "b": draw(st.sampled_from([0, 0.2, -0.3])),
                                               "Ea": draw(st.sampled_from([0, 2e6]))}}
                if draw(st.integers(0, 2)) == 0:
                    c.update(sub())
                cols.append(c)
        d = {"equation": f"{L} (+M){arrow}{Rr} (+M)", "type": "linear-Burke", "colliders": cols}
        d["equation"] = f"{L}{arrow}{Rr}"
    else:
        d = {"equation": f"{L}{arrow}{Rr}", "rate-constant": draw(arr(n))}
        if draw(st.integers(0, 5)) == 0:
            d["type"] = "elementary"
    if orders and not rev and t in ("elementary", "three-body") and draw(st.integers(0, 3)) == 0:
        s = draw(st.sampled_from(sorted(set(a))))
        d["orders"] = {s: draw(st.sampled_from([0.5, 1.5, 2.0, 0.0]))}
        if draw(st.integers(0, 2)) == 0:
            o = [x for x in names if x not in a]
            if o:
                d["orders"][draw(st.sampled_from(o))] = draw(st.sampled_from([0.5, 1.0, -0.3]))
                d["nonreactant-orders"] = True
                if any(v < 0 for v in d["orders"].values()):
                    d["negative-orders"] = True
    return d, (tuple(sorted(a)), tuple(sorted(b)))

def dedupe(rs):
    """Drop repeats of a reaction in either direction (they would need to be declared duplicate)."""
    seen, out = set(), []
    for r in rs:
        if r is None:
            continue
        d, key = r
        k = frozenset([key[0], key[1]])
        if k in seen:
            continue
        seen.add(k)
        out.append(d)
    return out

def mech_thermo():
    return st.one_of(nasa7(zones=2, hr=8000.0), nasa7(zones=2, hr=8000.0), nasa9(hr=8000.0), shomate(hr=60.0), constcp(hr=6e7))

@st.composite
def species(draw, names, thermo=None, with_transport=True):
    thermo = mech_thermo() if thermo is None else thermo
    out = []
    for s in names:
        th = dict(draw(thermo)); th.pop("reference-pressure", None)
        if th["model"] == "constant-cp":
            th.update({"T-min": 200.0, "T-max": 6000.0})     # transport fits need a finite range
        d = {"name": s, "composition": dict(POOL[s]), "thermo": th}
        if with_transport:
            d["transport"] = draw(transport(POOL[s]))
        out.append(d)
    return out

@st.composite
def gas_mech(draw, nmin=2, nmax=10, types=TYPES, thermo=None, model="ideal-gas", with_transport="multicomponent",
             duplicates=True, orders=True):
    names = list(draw(st.sampled_from(SETS)))
    m = draw(st.integers(3, len(names)))
    names = names[:m]
    if "AR" not in names and draw(st.booleans()):
        names.append("AR")
    eqs = balanced(tuple(names), 3, 3)
    if not eqs:
        names = SETS[0][:6]; eqs = balanced(tuple(names), 3, 3)
    eqs = eqs[:max(20, len(eqs) // 2)]
    rs = draw(st.lists(reaction(names, eqs, types, orders), min_size=nmin, max_size=nmax))
    rx = dedupe(rs)
    if duplicates and rx and draw(st.integers(0, 4)) == 0:
        # a declared duplicate pair
        r = next((r for r in rx if r.get("type", "elementary") == "elementary" and "orders" not in r), None)
        if r:
            r["duplicate"] = True
            q = dict(r); q["rate-constant"] = dict(r["rate-constant"], A=sig(r["rate-constant"]["A"] * 0.3))
            rx.append(q)
    sp = draw(species(names, thermo, bool(with_transport)))
    if model in ("Redlich-Kwong", "Peng-Robinson"):
        for x in sp:
            x["critical-parameters"] = {"critical-temperature": draw(uni(30, 250, 1000)), "critical-pressure": draw(uni(1e6, 1e7, 1000)),
                                        "acentric-factor": draw(uni(-0.1, 0.3, 1000))}
    ph = {"name": "gas", "thermo": model, "species": names, "kinetics": "bulk" if model != "ideal-gas" else "gas",
          "reactions": "all", "state": {"T": 300.0, "P": 101325.0}}
    if with_transport:
        ph["transport"] = with_transport
    els = sorted({e for s in names for e in POOL[s]})
    ph["elements"] = els
    return {"yaml": {"phases": [ph], "species": sp, "reactions": rx}, "n": len(names), "names": names}

# ------------------------------------------------------------------ surface mechanisms
SPOOL = {"PT(S)": ({"Pt": 1}, 1), "H(S)": ({"H": 1, "Pt": 1}, 1), "O(S)": ({"O": 1, "Pt": 1}, 1), "OH(S)": ({"H": 1, "O": 1, "Pt": 1}, 1),
         "H2O(S)": ({"H": 2, "O": 1, "Pt": 1}, 1), "O2(SS)": ({"O": 2, "Pt": 2}, 2), "H2(SS)": ({"H": 2, "Pt": 2}, 2)}
SSETS = [(["H2", "O2", "H2O", "OH", "H", "AR"], ["PT(S)", "H(S)", "O(S)", "OH(S)", "H2O(S)"]),
         (["H2", "H", "AR"], ["PT(S)", "H(S)", "H2(SS)"]), (["O2", "O", "AR"], ["PT(S)", "O(S)", "O2(SS)"]),
         (["H2", "O2", "H2O", "H", "O"], ["PT(S)", "H(S)", "O(S)", "O2(SS)", "OH(S)"])]

@lru_cache(maxsize=None)
def surf_balanced(gas, surf):
    comp = {**{g: POOL[g] for g in gas}, **{s: SPOOL[s][0] for s in surf}}
    groups = {}
    for ng in range(0, 2):
        for gs in itertools.combinations_with_replacement(gas, ng):
            for ns in range(1, 4 - ng):
                for ss in itertools.combinations_with_replacement(surf, ns):
                    c = {}
                    for s in gs + ss:
                        for e, k in comp[s].items():
                            c[e] = c.get(e, 0) + k
                    groups.setdefault(tuple(sorted(c.items())), []).append(gs + ss)
    out = []
    for g in groups.values():
        for a in g:
            for b in g:
                if a != b and not set(a) & set(b):
                    out.append((a, b))
    out.sort(key=lambda p: (len(p[0]) + len(p[1]), p))
    return out

@st.composite
def covdeps(draw, surf):
    d = {}
    for s in surf:
        if draw(st.integers(0, 2)) == 0:
            a = draw(st.sampled_from([0.0, 0.5, -1.0])); m = draw(st.sampled_from([0.0, 0.0, -1.0, 1.0, 0.5]))
            E = draw(st.sampled_from([0.0, -6e6, 1.2e7, 3e7]))
            if draw(st.integers(0, 3)) == 0:
                E = [E, draw(st.sampled_from([1e6, -4e6])), draw(st.sampled_from([0.0, 3e6])), draw(st.sampled_from([0.0, -2e6]))][:draw(st.integers(1, 4))]
            d[s] = [a, m, E] if draw(st.booleans()) else {"a": a, "m": m, "E": E}
    return d

@st.composite
def surf_reaction(draw, gas, surf, eqs, orders=True):
    a, b = eqs[draw(st.integers(0, len(eqs) - 1))]
    rev = draw(st.integers(0, 2)) > 0
    ngas = sum(x in gas for x in a)
    stick = ngas == 1 and draw(st.booleans())
    bm = draw(st.integers(0, 4)) == 0
    d = {"equation": side(a) + (" <=> " if rev else " => ") + side(b)}
    if stick:
        if bm:
            d["type"] = "sticking-Blowers-Masel"
            d["sticking-coefficient"] = {"A": draw(uni(0.01, 0.8, 1000)), "b": 0.0, "Ea0": draw(uni(1e6, 5e7)), "w": draw(uni(3e8, 1e9))}
        else:
            d["sticking-coefficient"] = {"A": draw(uni(0.01, 1.0, 1000)), "b": draw(st.sampled_from([0.0, 0.0, -0.2])), "Ea": draw(st.sampled_from([0.0, 0.0, 1e7]))}
            if draw(st.integers(0, 3)) == 0:
                d["type"] = "sticking-Arrhenius"
        k = draw(st.integers(0, 3))
        if k < 2:
            d["Motz-Wise"] = bool(k)
    else:
        ns = sum(SPOOL[x][1] for x in a if x in surf)
        A = draw(logu(1e3, 1e8)) * (1e8 ** max(len([x for x in a if x in surf]) - 1, 0)) * (1e2 if ngas else 1e3)
        A = sig(A)
        if bm:
            d["type"] = "interface-Blowers-Masel"
            d["rate-constant"] = {"A": A, "b": 0.0, "Ea0": draw(uni(1e6, 1e8)), "w": draw(uni(3e8, 1e9))}
        else:
            d["rate-constant"] = {"A": A, "b": draw(st.sampled_from([0.0, 0.0, 0.5, -1.0])), "Ea": draw(uni(0, 1.5e8))}
            if draw(st.integers(0, 3)) == 0:
                d["type"] = "interface-Arrhenius"
    if draw(st.booleans()):
        cd = draw(covdeps(surf))
        if cd:
            d["coverage-dependencies"] = cd
    if orders and not rev and draw(st.integers(0, 3)) == 0:
        x = [s for s in sorted(set(a)) if s in surf]
        if x:
            d["orders"] = {draw(st.sampled_from(x)): draw(st.sampled_from([0.5, 2.0, 1.0]))}
    return d, (tuple(sorted(a)), tuple(sorted(b)))

@st.composite
def surf_mech(draw, kinds=("surface", "surface", "echem"), nmin=1, nmax=8, orders=True, gas_reactions=False, thermo=None):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "echem":
        return draw(echem_mech(nmin, nmax))
    gas, surf = draw(st.sampled_from(SSETS))
    eqs = surf_balanced(tuple(gas), tuple(surf))
    rs = dedupe(draw(st.lists(surf_reaction(gas, surf, eqs, orders), min_size=nmin, max_size=nmax)))
    sp = draw(species(gas, thermo, False))
    for s in surf:
        th = dict(draw(thermo or mech_thermo())); th.pop("reference-pressure", None)
        d = {"name": s, "composition": dict(SPOOL[s][0]), "thermo": th}
        if SPOOL[s][1] != 1:
            d["sites"] = SPOOL[s][1]
        sp.append(d)
    phs = [{"name": "gas", "thermo": "ideal-gas", "species": gas, "elements": sorted({e for s in gas for e in POOL[s]})},
           {"name": "surf", "thermo": "ideal-surface", "species": surf, "site-density": draw(logu(1e-9, 1e-7)),
            "elements": sorted({e for s in surf for e in SPOOL[s][0]}), "kinetics": "surface", "reactions": ["surf-reactions"],
            "adjacent-phases": ["gas"]}]
    if draw(st.integers(0, 2)) == 0:
        phs[1]["Motz-Wise"] = True
    y = {"phases": phs, "species": sp, "surf-reactions": rs}
    if gas_reactions:
        ge = balanced(tuple(gas), 3, 3)
        y["gas-reactions"] = dedupe(draw(st.lists(reaction(gas, ge[:40], ["elementary", "three-body"], False), min_size=1, max_size=4)))
        phs[0].update(kinetics="gas", reactions=["gas-reactions"])
    return {"yaml": y, "kind": kind, "ng": len(gas), "ns": len(surf)}

@st.composite
def echem_mech(draw, nmin=1, nmax=6):
    """Charge transfer between a metal, an ideal electrolyte and a surface."""
    ely = ["A", "A+", "A++", "B-", "B"]
    surf = ["PT(S)", "A(S)", "A+(S)"]
    comp = {"A": {"Li": 1}, "A+": {"Li": 1, "E": -1}, "A++": {"Li": 1, "E": -2}, "B-": {"Cl": 1, "E": 1}, "B": {"Cl": 1},
            "PT(S)": {"Pt": 1}, "A(S)": {"Li": 1, "Pt": 1}, "A+(S)": {"Li": 1, "E": -1, "Pt": 1}, "electron": {"E": 1}}
    eqs = ["A+ + electron {} A", "A++ + electron {} A+", "A++ + 2 electron {} A", "B + electron {} B-", "A + B {} A+ + B-",
           "A+ + electron + PT(S) {} A(S)", "A+ + PT(S) {} A+(S)", "A+(S) + electron {} A(S)", "A(S) {} A + PT(S)", "A(S) + B {} A+ + B- + PT(S)"]
    pick = draw(st.lists(st.integers(0, len(eqs) - 1), min_size=nmin, max_size=nmax, unique=True))
    rs = []
    for i in pick:
        d = {"equation": eqs[i].format(draw(st.sampled_from(["<=>", "<=>", "=>"]))),
             "rate-constant": {"A": draw(logu(1e-6, 1e6)), "b": draw(st.sampled_from([0.0, 0.5])), "Ea": draw(uni(0, 8e7))}}
        if draw(st.booleans()):
            d["beta"] = draw(st.sampled_from([0.0, 0.3, 0.5, 0.7, 1.0]))
        if draw(st.integers(0, 2)) == 0 and i in (0, 1, 3):
            d["exchange-current-density-formulation"] = True
            d["rate-constant"]["A"] = draw(logu(1e-3, 1e4))
        if draw(st.integers(0, 3)) == 0:
            d["coverage-dependencies"] = draw(covdeps(surf)) or {"A(S)": [0.0, 0.0, 1e6]}
        rs.append(d)
    sp = []
    for s in ely + surf + ["electron"]:
        hr = 4e7
        # spread of Gibbs functions kept small: reactions stay within a few tens of RT
        th = {"model": "constant-cp", "T0": 298.15, "h0": sig(draw(uni(-hr, hr))), "s0": sig(draw(uni(1e4, 8e4))), "cp0": sig(draw(uni(1e4, 5e4)))}
        d = {"name": s, "composition": comp[s], "thermo": th}
        if s in ely:
            d["equation-of-state"] = {"model": "constant-volume", "molar-volume": draw(uni(0.01, 0.1, 1000))}
        sp.append(d)
    phs = [{"name": "elyte", "thermo": "ideal-condensed", "species": ely, "elements": ["Li", "Cl", "E"], "standard-concentration-basis": "unity"},
           {"name": "metal", "thermo": "electron-cloud", "species": ["electron"], "elements": ["E"], "density": "9.0 kg/m^3"},
           {"name": "surf", "thermo": "ideal-surface", "species": surf, "elements": ["Pt", "Li", "E"], "site-density": draw(logu(1e-9, 1e-7)),
            "kinetics": "surface", "reactions": ["surf-reactions"], "adjacent-phases": ["elyte", "metal"]}]
    return {"yaml": {"phases": phs, "species": sp, "surf-reactions": rs}, "kind": "echem", "ng": len(ely), "ns": len(surf)}
