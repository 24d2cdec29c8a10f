"""P23: arrays of states hold the states, extra data and metadata put into them.
A SolutionArray with views of it is taken through a generated history and compared to a
list of single-phase states; stored copies are read back in every format.  Non-trivial:
the history has a view or an append, or the stored array has more than one row."""
import json, math, os, tempfile, warnings
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen
from gen import uni, logu, fractions

PHASES = {"gas": ("h2o2.yaml", None), "water": ("liquidvapor.yaml", "water"), "rk": ("rk", None), "surf": ("ptcombust.yaml", "Pt_surf"),
          "stoich": ("graphite.yaml", None), "liquid": ("liq", None)}
LIQ = json.dumps({"phases": [{"name": "liq", "thermo": "ideal-condensed", "elements": ["H", "C", "O"], "species": ["D,d", "B", "C(2)"]}],
                  "species": [{"name": n, "composition": c, "thermo": {"model": "constant-cp", "h0": -1e8 * (i + 1), "s0": 1e5, "cp0": 7e4 + 1e4 * i}, "equation-of-state": {"model": "constant-volume", "molar-volume": 0.02 + 0.03 * i}}
                              for i, (n, c) in enumerate([("D,d", {"H": 2, "O": 1}), ("B", {"C": 1, "H": 4, "O": 1}), ("C(2)", {"C": 2, "H": 6})])]})
RK = json.dumps({"phases": [{"name": "rk", "thermo": "Redlich-Kwong", "elements": ["H", "C", "O"], "species": ["H2", "CO2", "CH4"]}],
                 "species": [{"name": n, "composition": c, "thermo": {"model": "constant-cp", "h0": -1e8 * i, "s0": 1e5, "cp0": 3e4 + 1e4 * i}, "equation-of-state": {"model": "Redlich-Kwong", "a": a, "b": b}}
                             for i, (n, c, a, b) in enumerate([("H2", {"H": 2}, 1.4e5, 1.8e-2), ("CO2", {"C": 1, "O": 2}, 6.4e6, 2.97e-2), ("CH4", {"C": 1, "H": 4}, 3.2e6, 2.98e-2)])]})
CACHE = {}
def phase(kind, slot):
    """Phases are made once per process: they are only read or set to states."""
    if (kind, slot) not in CACHE:
        f, n = PHASES[kind]
        if kind == "liquid":
            p = ct.Solution(yaml=LIQ)
        elif kind == "rk":
            p = ct.Solution(yaml=RK)
        elif kind == "water":
            p = ct.PureFluid(f, n)
        elif kind == "surf":
            p = ct.Interface(f, n)
        else:
            p = ct.Solution(f, n) if n else ct.Solution(f)
        CACHE[kind, slot] = p
    return CACHE[kind, slot]

NS = {"gas": 10, "water": 1, "rk": 3, "surf": 11, "stoich": 1, "liquid": 3}

def set_names(kind):
    if kind in ("water",):
        return ["TP", "TD", "TQ", "PQ", "HP", "UV", "SP", "SV", "TPQ"]
    if kind == "stoich":
        return ["TP"]
    if kind == "surf":
        return ["TP", "TPX", "TPY"]
    if kind == "liquid":
        return ["TP", "TPX", "TPY", "HP", "HPX", "SP"]
    return ["TP", "TPX", "TPY", "TD", "TDX", "TDY", "HP", "HPX", "UV", "UVY", "SP", "SV", "SPX"]

READ = {"gas": ["T", "P", "density", "X", "Y", "h", "s", "cp_mole", "mean_molecular_weight", "concentrations", "chemical_potentials", "net_production_rates", "net_rates_of_progress", "viscosity", "forward_rate_constants",
                "enthalpy_mass", "volume_mole", "v", "binary_diff_coeffs", "phase_of_matter", "TP", "TDY", "UVX", "elemental_mass_fraction", "heat_release_rate"],
        "water": ["T", "P", "density", "h", "s", "Q", "cv_mass", "phase_of_matter", "TPQ", "TD", "P_sat", "critical_temperature"],
        "rk": ["T", "P", "density", "X", "Y", "h", "s", "cp_mole", "activity_coefficients", "UV", "TPY", "partial_molar_volumes", "isothermal_compressibility"],
        "surf": ["T", "P", "X", "Y", "h", "coverages", "chemical_potentials", "TPX"],
        "stoich": ["T", "P", "h", "s", "g", "density"],
        "liquid": ["T", "P", "X", "Y", "h", "density", "chemical_potentials", "concentrations", "TPX"]}

def target(draw, kind, n):
    w = {"gas": (300, 2500, 1e3, 1e7), "water": (290, 600, 1e4, 1e7), "rk": (500, 1500, 1e4, 1e7), "surf": (300, 1500, 1e4, 1e6), "stoich": (300, 2000, 1e4, 1e7), "liquid": (280, 500, 1e4, 1e7)}[kind]
    return {"T": draw(uni(w[0], w[1])), "P": draw(logu(w[2], w[3])), "X": draw(fractions(NS[kind], tiny=False)), "Q": draw(uni(0, 1, 100))}

@st.composite
def index(draw):
    return draw(st.one_of(st.tuples(st.just("int"), st.integers(-3, 5)), st.tuples(st.just("slice"), st.one_of(st.none(), st.integers(-4, 4)), st.one_of(st.none(), st.integers(-4, 6)), st.sampled_from([None, 1, 2, -1, -2])),
                          st.tuples(st.just("list"), st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True)), st.tuples(st.just("mask"), st.lists(st.booleans(), min_size=6, max_size=6)), st.tuples(st.just("tuple"), st.integers(0, 2), st.integers(0, 2))))

VAL = {"int": st.integers(-5, 50), "float": uni(-10, 10, 1000), "str": st.sampled_from(["a", "spam", "x y", "", "1", "e5", "a,b"])}

@st.composite
def hist_case(draw):
    kind = draw(st.sampled_from(["gas", "gas", "gas", "water", "rk", "surf", "stoich", "liquid", "liquid"]))
    shape = draw(st.sampled_from([[0], [1], [1], [2], [3], [3], [4], [2, 2], [2, 3], [3, 1], [2, 2, 2], [1, 1]]))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        k = draw(st.sampled_from(["set", "set", "set", "view", "view", "read", "read", "phase", "phase", "extra", "newextra", "append", "append", "sort", "other", "ratio", "species", "drop", "wholearray"]))
        o = {"op": k, "v": draw(st.integers(0, 5))}
        if k in ("set", "append", "phase", "other", "wholearray"):
            o["name"] = draw(st.sampled_from(set_names(kind)))
            o["to"] = [target(draw, kind, 1) for _ in range(3)]
            o["form"] = draw(st.sampled_from(["scalar", "array", "array", "mixed"]))
            o["kw"] = draw(st.booleans())
            o["norm"] = draw(st.booleans())
        elif k == "view":
            o["i"] = draw(index())
        elif k == "read":
            o["p"] = draw(st.sampled_from(READ[kind]))
        elif k in ("extra", "newextra"):
            o["n"] = draw(st.sampled_from(["aa", "bb", "c c"]))
            o["t"] = draw(st.sampled_from(["int", "float", "str"]))
            o["cols"] = draw(st.sampled_from([0, 0, 0, 2]))
            o["vals"] = [draw(VAL[o["t"]]) for _ in range(12)]
            o["scalar"] = draw(st.integers(0, 3)) == 0
        elif k == "sort":
            o["by"] = draw(st.sampled_from(["T", "P", "extra"])); o["rev"] = draw(st.booleans())
        elif k == "ratio":
            o["phi"] = [draw(uni(0.1, 3)) for _ in range(3)]
        ops.append(o)
    return {"kind": kind, "shape": shape, "init": target(draw, kind, 1), "ops": ops, "basis": draw(st.sampled_from(["mass", "mass", "molar"]))}

def pair(ref, name, t):
    """Values of the property pair `name` at a target state of the reference phase."""
    keep = ref.state.copy()
    n = name
    comp = None
    if n[-1] in "XY" and len(n) == 3:
        comp = t["X"]
        if n[-1] == "X":
            ref.TPX = t["T"], t["P"], comp
        else:
            ref.TPY = t["T"], t["P"], comp
    elif n == "TPQ":
        ref.TQ = min(t["T"], 600), t["Q"]
        v = [ref.T, ref.P, t["Q"]]
        ref.state = keep
        return v
    elif "Q" in n:
        v = [t["T"] if n[0] == "T" else min(t["P"], 1e7), t["Q"]]
        return v
    else:
        ref.TP = t["T"], t["P"]
    get = {"T": lambda: ref.T, "P": lambda: ref.P, "D": lambda: ref.density, "H": lambda: ref.h, "U": lambda: ref.u, "V": lambda: ref.v, "S": lambda: ref.s}
    v = [get[c]() for c in n[:2]]
    if comp is not None:
        v.append(comp)
    ref.state = keep
    return v

class Model:
    def __init__(self, ref, rows):
        self.ref = ref; self.rows = rows; self.extra = {}

def value(ref, name):
    if name == "elemental_mass_fraction":
        return ref.elemental_mass_fraction(0)
    return getattr(ref, name)

def compare(rec, sig, a, idx, shape, M, name):
    ref = M.ref
    try:
        want = []
        for i in idx:
            ref.state = M.rows[i]
            want.append(value(ref, name))
    except (ct.CanteraError, NotImplementedError):
        return
    try:
        got = a.elemental_mass_fraction(0) if name == "elemental_mass_fraction" else getattr(a, name)
    except (ct.CanteraError, NotImplementedError) as e:
        if not idx and "empty" in str(e): return
        if "not implemented" in str(e).lower() or "SolutionArray containing Interface" in str(e): return
        return rec.fail(f"{sig}:{name}", f"not available: {str(e)[-200:]}")
    if name in ("TP", "TD", "TPQ", "TDY", "UVX", "UV", "TPY", "TPX"):
        for j in range(len(name)):
            g = np.asarray(got[j]); w = np.array([x[j] for x in want])
            if not len(want): continue
            rec.check(f"{sig}:{name}:shape", g.shape == tuple(shape) + w.shape[1:], f"{g.shape} {shape}")
            rec.close(f"{sig}:{name}", g.ravel(), w.ravel(), 2e-7, 1e-12 * (np.abs(w).max(initial=0)))
        return
    got = np.asarray(got)
    if not len(want):
        rec.check(f"{sig}:{name}:shape", got.shape[:len(shape)] == tuple(shape), f"{got.shape} {shape}")
        return
    w = np.array(want)
    rec.check(f"{sig}:{name}:shape", got.shape == tuple(shape) + w.shape[1:], f"{got.shape} {tuple(shape) + w.shape[1:]}")
    if w.dtype.kind in "US":
        rec.check(f"{sig}:{name}", (got.ravel() == w.ravel()).all(), f"{got} {w}")
        return
    if np.isnan(w).any():
        w = np.nan_to_num(w); got = np.nan_to_num(got)
    tol = 2e-7   # of the iterations that set states from energies or entropies
    # the pressure of a liquid from its temperature and density is ill-conditioned
    stiff = 100.0 if name == "P" and ref.thermo_model == "pure-fluid" else 0.0
    rec.close(f"{sig}:{name}", got.ravel(), w.ravel(), tol, 1e-10 * np.abs(w).max() + stiff, f"rows {idx}")

def apply_index(o, shape):
    k = o[0]
    if k == "int":
        return o[1]
    if k == "slice":
        return slice(o[1], o[2], o[3])
    if k == "list":
        return [i % max(shape[0], 1) for i in o[1]] if len(set(i % max(shape[0], 1) for i in o[1])) == len(o[1]) else [0]
    if k == "mask":
        return np.array([o[1][i % 6] for i in range(shape[0])], bool)
    return (o[1], o[2])

@sub("P23", "histories", hist_case, quick=1500, thorough=40000, shards=3, tshards=8, floor=0.5,
     rule="arrays of six kinds of phases with views of views, appended rows, extra columns, sorting and outside changes of the phase, against a list of states")
def histories(c, rec):
    kind = c["kind"]
    g, ref = phase(kind, 0), phase(kind, 1)
    g.basis = ref.basis = c["basis"]
    n = int(np.prod(c["shape"]))
    t = c["init"]
    try:
        for p in (ref, g):
            if kind in ("water", "stoich"):
                p.TP = t["T"], t["P"]
            else:
                p.TPX = t["T"], t["P"], t["X"]
    except ct.CanteraError:
        rec.skip("initial state")
    a = ct.SolutionArray(g, tuple(c["shape"]) if len(c["shape"]) > 1 else c["shape"][0])
    M = Model(ref, [ref.state.copy() for _ in range(n)])
    views = [(a, np.arange(n).reshape(c["shape"]))]
    rec.check("len", len(a) == c["shape"][0] and a.shape == tuple(c["shape"]) and a.size == n, f"{a.shape}")
    did = set()
    for o in c["ops"]:
        k = o["op"]
        w = None
        v, idx = views[o["v"] % len(views)]
        shape = idx.shape; flat = [int(i) for i in idx.ravel()]
        if k in ("set", "wholearray"):
            name = o["name"]
            to = o["to"]
            if k == "wholearray":
                v, idx = views[0]; shape = idx.shape; flat = [int(i) for i in idx.ravel()]
            if "Q" in name and kind == "water":
                to = [dict(x, T=min(x["T"], 600)) for x in to]
            try:
                vals = []
                for j, i in enumerate(flat):
                    ref.state = M.rows[i]
                    # the composition of the row is kept by pairs
                    vals.append(pair(ref, name, to[0 if o["form"] == "scalar" else j % 3]))
                if o["form"] == "scalar" and flat:
                    # one value for all: a pair without composition differs between rows
                    vals = [vals[0]] * len(flat)
                new = []
                for i, x in zip(flat, vals):
                    ref.state = M.rows[i]
                    setattr(ref, name, x)
                    new.append(ref.state.copy())
            except ct.CanteraError:
                continue
            if not flat:
                continue
            parts = []
            for j in range(len(name)):
                q = [x[j] for x in vals]
                if o["form"] == "scalar":
                    parts.append(q[0])
                else:
                    z = np.array(q)
                    parts.append(z.reshape(shape + z.shape[1:]))
            if o["form"] == "mixed" and len(name) == 3 and name[-1] in "XY" and all(x[2] == vals[0][2] for x in vals):
                parts[2] = vals[0][2]
            try:
                setattr(v, name, tuple(parts))
            except ct.CanteraError as e:
                rec.fail("set " + name, f"refused: {str(e)[-300:]}")
            for i, x in zip(flat, new):
                M.rows[i] = x
            did.add("set")
        elif k == "view":
            if len(views) > 4: continue
            try:
                ii = apply_index(o["i"], shape)
                sel = idx[ii]
            except IndexError:
                try:
                    v[ii]
                except IndexError:
                    continue
                rec.fail("index", f"{o['i']} accepted for shape {shape}")
            w = v[ii]
            rec.check("view shape", w.shape == np.shape(sel), f"{w.shape} {np.shape(sel)}")
            views.append((w, np.asarray(sel)))
            did.add("view")
        elif k == "read":
            compare(rec, "read", v, flat, shape, M, o["p"])
        elif k == "phase":
            try:
                setattr(g, o["name"], pair(ref, o["name"], o["to"][0]))
            except ct.CanteraError:
                pass
            did.add("phase")
        elif k == "other":
            b = ct.SolutionArray(g, 2)
            try:
                x = pair(ref, o["name"], o["to"][0])
                setattr(b, o["name"], x)
            except ct.CanteraError:
                pass
        elif k == "newextra":
            if len(views) > 1 or o["n"] in M.extra or views[0][1].ndim > 1:
                continue
            a = views[0][0]
            m = a.size
            vals = o["vals"][:max(m, 1)] if m <= 12 else (o["vals"] * 9)[:m]
            if o["cols"]:
                vals = [[x, x] for x in vals]
            b = ct.SolutionArray(g, a.shape)
            if m == 0:
                continue
            a._add_extra(o["n"])
            a._set_component(o["n"], np.array(vals[:m]))
            M.extra[o["n"]] = list(np.array(vals[:m]))
        elif k == "extra":
            # (values of arrays with several dimensions are refused)
            if o["n"] not in M.extra or not flat or idx.ndim > 1: continue
            old = np.array(M.extra[o["n"]])
            new = np.array((o["vals"] * 9)[:len(flat)])
            if old.ndim > 1:
                new = np.stack([new, new], axis=1)
            whole = len(flat) == len(M.rows)
            if new.dtype.kind != old.dtype.kind and not (v is views[0][0]):
                continue
            if o["scalar"] and new.dtype.kind == old.dtype.kind and old.ndim == 1 and new.dtype.kind in "if":
                setattr(v, o["n"], o["vals"][0])
                new = np.full(len(flat), o["vals"][0])
            else:
                setattr(v, o["n"], new.reshape(shape + new.shape[1:]) if shape else new[0])
            e = list(M.extra[o["n"]])
            if v is views[0][0]:
                e = list(new)
            else:
                for i, x in zip(flat, new): e[i] = x
            M.extra[o["n"]] = e
            did.add("extra")
        elif k == "append":
            v, idx = views[0]
            name = o["name"]
            try:
                ref.state = M.rows[-1] if M.rows else ref.state
                x = pair(ref, name, o["to"][0])
                full = len(name) == 3 or kind in ("water", "stoich")
                setattr(g, name, x); s0 = g.state.copy()
                setattr(ref, name, x); s1 = ref.state.copy()
            except ct.CanteraError:
                continue
            kw = {}
            for e in M.extra:
                z = M.extra[e][-1] if len(M.extra[e]) else None
                if isinstance(z, np.ndarray): z = list(z.tolist())
                kw[e] = z.item() if isinstance(z, np.generic) else z
            by = None
            if full and len(name) >= 2 and kind not in ("stoich",):
                fs = [frozenset(q) for q in g._full_states.values()] if False else list(g._full_states)
                if frozenset(name) in fs and o["kw"]:
                    by = dict(zip(name, x))
                elif frozenset(name) in fs:
                    by = {name: x}
            n0 = len(v)
            nd = len(idx.shape)
            try:
                if by is not None:
                    v.append(**by, **kw, **({} if o["norm"] else {"normalize": True}))
                else:
                    v.append(s0, **kw)
                    s1 = s0
            except (IndexError,) as e:
                rec.check("append refused", nd != 1, str(e))
                continue
            except ct.CanteraError as e:
                rec.check("append refused", len(views) > 1 or nd != 1, str(e)[-200:])
                rec.check("append refused keeps the length", len(v) == n0 and v.size == n0, f"{len(v)} {n0}")
                v._indices  # unchanged
                rec.check("append refused keeps the indices", len(v._indices) == n0, f"{len(v._indices)} {n0}")
                continue
            if len(views) > 1 or nd != 1:
                return rec.fail("append to a shared array", "accepted")
            M.rows.append(s1)
            for e in M.extra: M.extra[e] = list(M.extra[e]) + [M.extra[e][-1]]
            views[0] = (v, np.arange(len(M.rows)))
            did.add("append")
        elif k == "sort":
            v, idx = views[0]
            if idx.ndim != 1 or len(flat) == 0 or len(views[0][1]) == 0:
                continue
            keys = []
            for r in M.rows:
                ref.state = r; keys.append(ref.T if o["by"] == "T" else ref.P)
            if o["by"] == "extra":
                e = sorted(x for x in M.extra if np.array(M.extra[x]).ndim == 1)
                if not e: continue
                by = e[0]; keys = list(M.extra[by])
            else:
                by = o["by"]
            if len(set(keys)) < len(keys) or (o["by"] != "extra" and min(np.diff(np.sort(np.asarray(keys))), default=1) < 1e-6 * max(keys)):
                continue
            order = np.argsort(np.array(keys))
            if o["rev"]: order = order[::-1]
            v.sort(by, reverse=o["rev"])
            M.rows = [M.rows[i] for i in order]
            for e in M.extra: M.extra[e] = [M.extra[e][i] for i in order]
            did.add("sort")
        elif k == "ratio":
            if kind != "gas" or not flat: continue
            phi = np.array([o["phi"][j % 3] for j in range(len(flat))]).reshape(shape)
            v.set_equivalence_ratio(phi, "H2", "O2:1, AR:4")
            for i, x in zip(flat, phi.ravel()):
                ref.state = M.rows[i]; ref.set_equivalence_ratio(x, "H2", "O2:1, AR:4"); M.rows[i] = ref.state.copy()
        elif k == "species":
            if kind in ("stoich", "water") or not flat: continue
            names = ref.species_names[1:3] + ref.species_names[:1]
            w = v(*names)
            kk = [ref.species_index(x) for x in names]
            for p in ("X", "Y"):
                want = []
                for i in flat:
                    ref.state = M.rows[i]; want.append(getattr(ref, p)[kk])
                got = np.asarray(getattr(w, p))
                rec.check("selected species shape", got.shape == shape + (3,), f"{got.shape} {shape}")
                rec.close("selected species", got.reshape(-1, 3), np.array(want), 1e-11, 1e-15)
        elif k == "drop":
            del v, idx
            views = views[:1]
            w = None
    for v, idx in views:
        flat = [int(i) for i in idx.ravel()]
        for p in ("P", "T", READ[kind][3]):
            compare(rec, "end", v, flat, idx.shape, M, p)
        for e, x in M.extra.items():
            got = np.asarray(getattr(v, e))
            want = np.array(x)[flat].reshape(idx.shape + np.array(x).shape[1:]) if flat else None
            if want is not None:
                rec.check("extra " + str(want.dtype.kind), got.shape == want.shape and (got == want).all(), f"{e}: {got} {want}")
    if did & {"view", "append", "sort"}:
        rec.hit("+".join(sorted(did)))

# ------------------------------------------------------------------ storage
@st.composite
def store_case(draw):
    kind = draw(st.sampled_from(["gas", "gas", "gas", "water", "rk", "surf", "stoich", "liquid", "liquid"]))
    way = draw(st.sampled_from(["yaml", "yaml", "yaml", "csv", "csv", "collect", "collect", "pandas", "yaml2"]))
    shape = draw(st.sampled_from([[1], [2], [3], [5], [2, 2], [0]] if way in ("yaml", "yaml2") else [[1], [2], [4]]))
    n = int(np.prod(shape))
    ex = {}
    for name in draw(st.lists(st.sampled_from(["aa", "bb", "c c", "k-x", "a,b", "zone"]), max_size=3, unique=True)):
        t = draw(st.sampled_from(["int", "float", "str"]))
        if way == "pandas" and t == "str": t = "int"
        cols = draw(st.sampled_from([0, 0, 2])) if way in ("yaml", "yaml2", "collect") else 0
        vals = [draw(VAL[t].filter(lambda x: x == x.strip() and x) if t == "str" else VAL[t]) for _ in range(n * max(cols, 1))]
        ex[name] = {"t": t, "cols": cols, "v": vals}
    meta = draw(st.dictionaries(st.sampled_from(["foo", "note", "nested"]), st.one_of(st.integers(0, 9), uni(0, 1, 100), st.sampled_from(["bar", "x y"]), st.lists(st.integers(0, 9), min_size=1, max_size=3), st.just({"a": 1, "b": "c"})), max_size=3))
    return {"kind": kind, "way": way, "shape": shape, "rows": [target(draw, kind, 1) for _ in range(n)], "ex": ex, "meta": meta, "by": draw(st.sampled_from(["TP", "native"])),
            "name": draw(st.sampled_from(["arr", "group/sub", "some key"])), "sub": draw(st.sampled_from([None, None, "inner"])), "cbasis": draw(st.sampled_from([None, "X", "Y", "mole", "mass"])), "basis": draw(st.sampled_from(["mass", "mass", "molar"])),
            "cols": draw(st.sampled_from([None, None, ["extra", "T", "P", "X"], ["extra", "T", "density", "Y"], ["extra", "h", "P", "Y"], ["extra", "T", "P", "Y"]])), "tab": draw(st.booleans()), "desc": draw(st.sampled_from([None, "text: with colon", "two words"])),
            "over": draw(st.booleans()), "dirty": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 1.001]))}

@sub("P23", "storage", store_case, quick=1200, thorough=30000, shards=2, tshards=8, floor=0.5,
     rule="arrays with extra columns and metadata stored in YAML or CSV files, dictionaries or data frames and read into other arrays; more than one row or an extra column")
def storage(c, rec):
    kind, way = c["kind"], c["way"]
    g, g2 = phase(kind, 0), phase(kind, 1)
    g.basis = g2.basis = c["basis"]
    shape = tuple(c["shape"]); n = int(np.prod(shape))
    extra = {}
    for name, e in c["ex"].items():
        x = np.array(e["v"]) if n else np.zeros(0)
        extra[name] = x.reshape(shape + ((e["cols"],) if e["cols"] else ()))
    if n == 0:
        extra = {}
    if kind in ("stoich", "water"): g.TP = 320, 1e5
    meta = json.loads(json.dumps(c["meta"]))
    try:
        for r in c["rows"]:
            if kind in ("water", "stoich"): g.TP = r["T"], r["P"]
            else: g.TPX = r["T"], r["P"], r["X"]
    except ct.CanteraError:
        rec.skip("state")
    a = ct.SolutionArray(g, shape, extra=extra or None)
    unnorm = c["scale"] != 1.0 and kind in ("gas", "rk") and way in ("yaml", "yaml2") and n > 1
    for i, r in enumerate(c["rows"]):
        if kind in ("water", "stoich"):
            g.TP = r["T"], r["P"]
        else:
            g.TPX = r["T"], r["P"], r["X"]
        if unnorm:
            g.set_unnormalized_mass_fractions(g.Y * c["scale"])
        s = g.state.copy()
        a._set_loc(i); g.state = s
        if unnorm:
            g.set_unnormalized_mass_fractions(s[2:]); g.TD = s[0], s[1]
        a._update_state(i)
    if way in ("yaml", "yaml2"):
        a.meta = meta
    st0 = [a._get_state(i) for i in range(n)]
    T0, P0 = np.array(a.T), np.array(a.P)
    X0 = np.array(a.X); Y0 = np.array(a.Y)
    tr = getattr(g, "transport_model", None)
    b = None
    rt = 1e-12
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if way in ("yaml", "yaml2"):
            f = os.path.join(d, "arr.yaml" if way == "yaml" else "arr.yml")
            kw = {"sub": c["sub"]} if c["sub"] else {}
            if way == "yaml2":
                # another entry in the same file first
                a.save(f, "first", "inner", description="d1")
            a.save(f, c["name"], description=c["desc"], **kw)
            if c["over"]:
                try:
                    a.save(f, c["name"], **kw)
                except ct.CanteraError:
                    pass
                else:
                    rec.fail("overwrite", "an existing entry was replaced without overwrite=True")
                a.save(f, c["name"], description=c["desc"], overwrite=True, **kw)
            if c["dirty"]:
                if kind not in ("water", "stoich"): g2.TPX = 400, 2e5, c["rows"][0]["X"] if n else g2.X
                else: g2.TP = 400, 2e5
            b = ct.SolutionArray(g2)
            head = b.restore(f, c["name"], **kw)
            if c["desc"]:
                rec.check("description", head.get("description") == c["desc"], f"{head}")
            got = {k: v for k, v in dict(b.meta).items() if k != "transport-model"}
            rec.check("meta", {k: got.get(k) for k in meta} == meta, f"{got} {meta}")
            if way == "yaml2":
                b2 = ct.SolutionArray(g2)
                h2 = b2.restore(f, "first", "inner")
                rec.check("first entry", h2.get("description") == "d1", f"{h2}")
                if n:
                    rec.close("first entry:T", b2.T, T0, 1e-12)
            rt = 1e-11
        elif way == "csv":
            f = os.path.join(d, "arr.csv")
            if any(e["cols"] for e in c["ex"].values()): rec.skip("matrix in csv")
            a.save(f, basis=c["cbasis"])
            if c["over"]:
                try:
                    a.save(f, basis=c["cbasis"])
                except ct.CanteraError:
                    pass
                else:
                    rec.fail("overwrite", "an existing file was replaced without overwrite=True")
                a.save(f, basis=c["cbasis"], overwrite=True)
            if kind == "surf": rec.skip("no state in csv")
            b = ct.SolutionArray(g2)
            b.read_csv(f)
            rt = 2e-8
        elif way == "collect":
            cols = c["cols"]
            if kind in ("water", "stoich", "surf"): cols = None
            if kind == "liquid" and cols and "density" in cols: cols = None
            tab = c["tab"] and not any(e["cols"] for e in c["ex"].values())
            data = a.collect_data(cols=tuple(cols) if cols else None, tabular=tab)
            if kind == "surf" and not tab: pass
            b = ct.SolutionArray(g2)
            if c["dirty"] and len(shape) == 1:
                b = ct.SolutionArray(g2, n)
            b.restore_data(data)
            rt = 1e-7 if cols and "h" in cols else 1e-9
        elif way == "pandas":
            b = ct.SolutionArray(g2)
            b.from_pandas(a.to_pandas())
            rt = 1e-10
    rec.check("shape", b.shape == shape, f"{b.shape} {shape}")
    if n:
        if kind == "rk" or kind == "water": rt = max(rt, 1e-8)
        rec.close(f"{way}:T", b.T, T0, rt)
        sc = 3e4 if kind in ("water",) and way == "csv" else 1.0
        if not (kind == "water" and way == "csv"):
            rec.close(f"{way}:P", b.P, P0, rt * 10, msg=f"{kind}")
        rec.close(f"{way}:X", np.asarray(b.X).ravel(), X0.ravel(), rt, 1e-9 if way == "csv" else 1e-14)
        rec.close(f"{way}:Y", np.asarray(b.Y).ravel(), Y0.ravel(), rt, 1e-9 if way == "csv" else 1e-14)
        if way in ("yaml", "yaml2"):
            for i in range(n):
                rec.close("yaml:state", b._get_state(i), st0[i], 1e-8 if kind in ("rk", "water") else 1e-11, 1e-14)
        for name, e in extra.items():
            rec.check("extra kept", name in b.extra, f"{name} not in {b.extra}")
            got = np.asarray(getattr(b, name))
            if e.dtype.kind == "f":
                rec.close(f"{way}:extra {name}", got.ravel(), e.ravel(), 1e-8 if way == "csv" else 1e-14, 1e-12)
            elif way == "csv" and e.dtype.kind == "U":
                rec.check(f"{way}:extra str", [str(x) for x in got.ravel()] == [str(x) for x in e.ravel()] or _numeric(e), f"{got} {e}")
            else:
                rec.check(f"{way}:extra", got.shape == e.shape and (got == e).all(), f"{got!r} {e!r}")
    if n > 1 or extra:
        rec.hit(way)

def _numeric(e):
    """Strings that read as numbers come back from CSV as numbers."""
    try:
        [float(x) for x in e.ravel()]
        return True
    except ValueError:
        return False
