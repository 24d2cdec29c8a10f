"""P19: writing a model out and reading it back gives the same model.
A generated phase (every model, kinetics and transport included), its state and user data
are written with `write_yaml` in generated output units and precision and read back; the
copy must have the same properties, parameters and state.  Species and reactions are also
rebuilt from their `input_data`.  Non-trivial: the model has been read back and compared."""
import copy, json, os, pickle
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen, p03_history as p3
from gen import uni, logu, fractions

UNITS = {"mass": ["kg", "g", "mg"], "length": ["m", "cm", "mm", "micron", "angstrom"], "time": ["s", "ms", "min", "hr"],
         "quantity": ["kmol", "mol", "gmol", "molec"], "pressure": ["Pa", "atm", "bar", "kPa", "dyn/cm^2"], "energy": ["J", "cal", "kJ", "kcal", "eV", "erg"],
         "activation-energy": ["J/kmol", "K", "cal/mol", "kcal/mol", "eV", "kJ/mol", "J/mol"]}

@st.composite
def units(draw):
    u = {}
    for k in UNITS:
        if draw(st.integers(0, 2)) == 0:
            u[k] = draw(st.sampled_from(UNITS[k]))
    return u

WORDS = ["a", "x: y", "- b", "null", "~", "1.0", "1e5", "true", "No", "", " pad ", "#c", "it's", 'say "hi"', "back\\slash", "tab\there", "two\nlines", "\u00e9t\u00e9", "{z}", "[q]", "&a", "*b", "!t", "%d", "@e", "0x1F", "1_000",
         "colon:", "NaN", ".inf", "2020-01-01", "a, b", "x" * 100, "long text with many words " * 6]
word = st.sampled_from(WORDS)
key = st.sampled_from(["one", "two words", "k-3", "K_4", "note", "123", "some.thing", "x y", "Source"])
num = st.one_of(st.integers(-2**31, 2**31), st.sampled_from([0.0, 1.0, -1.5, 1e-300, 1.7976931348623157e308, 5e-324, 0.1, 1/3, 123456789.125, 1e15, 1e16, 1e17, -2.5e-8, 1e5, 123456.0]),
                st.floats(allow_nan=False, allow_infinity=False))
def same_kind():
    """Lists hold one kind of thing."""
    return st.one_of(st.lists(word, min_size=1, max_size=5), st.lists(st.integers(-1000, 1000), min_size=1, max_size=8),
                     st.lists(st.floats(-1e10, 1e10, allow_nan=False), min_size=1, max_size=12), st.lists(st.booleans(), min_size=1, max_size=4))
scalar = st.one_of(word, num, st.booleans())
def tree(n=2):
    if n == 0:
        return st.one_of(scalar, same_kind())
    return st.one_of(scalar, same_kind(), st.dictionaries(key, tree(n - 1), min_size=1, max_size=4),
                     st.lists(st.dictionaries(key, tree(n - 1), min_size=1, max_size=3), min_size=1, max_size=3),
                     st.lists(st.lists(st.floats(-1e3, 1e3, allow_nan=False), min_size=2, max_size=2), min_size=1, max_size=4))
user = st.dictionaries(key, tree(2), max_size=3)

@st.composite
def phase_case(draw):
    model = draw(st.sampled_from(sorted(gen.MODELS)))
    d = draw(gen.MODELS[model]())
    T, P = d["T"], d["P"]
    if "Tc" in d:
        T = (max(300, 1.1 * d["Tc"]), 2500)
    n = len(d["yaml"]["species"])
    return {"model": model, "d": {k: d[k] for k in d if k in ("yaml", "molal", "n")}, "T": draw(uni(*T)), "P": draw(logu(*P)), "X": None if "molal" in d else draw(fractions(n)),
            "units": draw(units()), "prec": draw(st.one_of(st.none(), st.integers(8, 14))), "user": draw(st.one_of(st.just({}), user)), "skip": draw(st.sampled_from([None, None, True, False])),
            "way": draw(st.sampled_from(["string", "string", "file", "pickle"]))}

def hyphens(a):
    """Keys as `Reaction.from_dict` stores them (those of maps in lists are kept)."""
    if isinstance(a, dict):
        return {k.replace("_", "-"): hyphens(v) for k, v in a.items()}
    return a

def same(a, b):
    """The same data, numbers within rounding of 15 digits."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-14 * max(abs(a), abs(b)) + 1e-320
    if isinstance(a, str) and isinstance(b, str) and "\n" in a:
        return a.strip() == b.strip()        # long text is written as a block
    return type(a) == type(b) and a == b

def params(rec, tag, p, q, rtol, rate=True):
    """Parameters of species and reactions agree."""
    rec.check(f"{tag}:elements", set(p.element_names) == set(q.element_names), f"{p.element_names} {q.element_names}")
    for n in ("species_names", "name", "thermo_model", "phase_of_matter"):
        rec.check(f"{tag}:{n}", getattr(p, n) == getattr(q, n), f"{getattr(p, n)} {getattr(q, n)}")
    for a, b in zip(p.species(), q.species()):
        rec.check(f"{tag}:composition", a.composition == b.composition and a.charge == b.charge, a.name)
        rec.close(f"{tag}:size", a.size, b.size, 1e-14)
        try:
            ta, tb = a.thermo, b.thermo
        except TypeError:       # none that Python can hold
            ta = None
        if ta is not None:
            rec.check(f"{tag}:thermo type", type(ta) == type(tb), a.name)
            ca, cb = np.array(ta.coeffs), np.array(tb.coeffs)
            rec.close(f"{tag}:{type(ta).__name__} coefficients", ca, cb, rtol, 1e-300, a.name)
            rec.close(f"{tag}:thermo limits", [ta.min_temp, ta.max_temp, ta.reference_pressure], [tb.min_temp, tb.max_temp, tb.reference_pressure], rtol)
        tra, trb = a.transport, b.transport
        rec.check(f"{tag}:has transport", (tra is None) == (trb is None), a.name)
        if tra is not None:
            rec.check(f"{tag}:geometry", tra.geometry == trb.geometry)
            at = ("diameter", "well_depth", "dipole", "polarizability", "rotational_relaxation", "acentric_factor", "dispersion_coefficient", "quadrupole_polarizability")
            rec.close(f"{tag}:transport parameters", [getattr(tra, x) for x in at], [getattr(trb, x) for x in at], rtol, 0)

@sub("P19", "phases", phase_case, quick=900, thorough=30000, shards=2, tshards=8, floor=0.7,
     rule="15 generated phase models written with generated output units, precision and user data, read back from a string, a file or a pickle, and compared at the stored state and another one")
def phases(c, rec):
    import tempfile
    y0 = json.loads(json.dumps(c["d"]["yaml"]))
    p = ct.Solution(yaml=json.dumps(y0))
    X = np.array(c["X"] if c["X"] is not None else gen.molal_X(c["d"], p.molecular_weights))
    try:
        p.TPX = c["T"], c["P"], X
    except ct.CanteraError:
        rec.skip("state refused")
    if c["user"]:
        p.update_user_data(copy.deepcopy(c["user"]))
    kw = {}
    if c["units"]: kw["units"] = c["units"]
    if c["prec"]: kw["precision"] = c["prec"]
    if c["skip"] is not None: kw["skip_user_defined"] = c["skip"]
    tag = c["model"]
    if c["way"] == "pickle":
        q = pickle.loads(pickle.dumps(p))
        kw = {}
    elif c["way"] == "file":
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "m.yaml")
            p.write_yaml(f, **kw)
            q = ct.Solution(f)
    else:
        q = ct.Solution(yaml=p.write_yaml(**kw))
    prec = kw.get("precision") or 15
    rt = max(10.0**-prec * 5, 1e-13)
    params(rec, tag, p, q, rt)
    have = dict(q.input_data)
    if not kw.get("skip_user_defined"):
        for k, v in c["user"].items():
            if prec == 15:
                rec.check("user data", k in have and same(have[k], v), f"{k}: {v!r} came back as {have.get(k)!r}")
    else:
        rec.check("user data removed", not set(have) & set(c["user"]), f"{set(have) & set(c['user'])}")
    if prec < 15:
        rec.hit("precision")
        return
    names = p3.TH
    # the stored state
    if tag in ("Redlich-Kwong", "Peng-Robinson"):
        r = 1e-7
    elif "molal" in c["d"]:
        r = 1e-6
    else:
        r = 1e-8
    rec.close(f"{tag}:stored T", p.T, q.T, 1e-13)
    rec.close(f"{tag}:stored density", p.density, q.density, 1e-11)
    rec.close(f"{tag}:stored P", p.P, q.P, 1e-10, 1e-3)
    rec.close(f"{tag}:stored X", p.X, q.X, 1e-12, 1e-14)
    p3.compare(rec, p, q, names, tag + " as stored", r)
    try:
        p.TPX = c["T"] * 1.03, c["P"] * 1.5, X
        q.TPX = c["T"] * 1.03, c["P"] * 1.5, X
    except ct.CanteraError:
        return
    p3.compare(rec, p, q, names, tag, r)
    rec.hit(tag + " " + c["way"])

# ------------------------------------------------------------------ gas mechanisms
@st.composite
def gas_case(draw):
    m = draw(mechgen.gas_mech(1, 8, model=draw(st.sampled_from(["ideal-gas", "ideal-gas", "Redlich-Kwong", "Peng-Robinson"])),
                              with_transport=draw(st.sampled_from([None, "mixture-averaged", "multicomponent", "unity-Lewis-number", "mixture-averaged-CK"]))))
    y = m["yaml"]
    for s in y["species"]:
        if draw(st.integers(0, 4)) == 0: s["my data"] = draw(tree(1))
    for r in y["reactions"]:
        if draw(st.integers(0, 4)) == 0: r["my data"] = draw(tree(1))
        if draw(st.integers(0, 5)) == 0: r["id"] = draw(st.sampled_from(["r1", "rate-2", "x"]))
    return {"y": y, "n": m["n"], "T": draw(uni(400, 2500)), "P": draw(logu(1e3, 3e6)), "X": draw(fractions(m["n"])), "units": draw(units()), "prec": draw(st.sampled_from([None, None, 10])),
            "way": draw(st.sampled_from(["string", "string", "file", "pickle", "twice", "input_data", "from species and reactions"])), "mult": draw(st.integers(0, 7))}

def rx(rec, tag, p, q):
    rec.check(f"{tag}:n_reactions", p.n_reactions == q.n_reactions, f"{p.n_reactions} {q.n_reactions}")
    for i, (a, b) in enumerate(zip(p.reactions(), q.reactions())):
        for n in ("equation", "reactants", "products", "reversible", "duplicate", "reaction_type", "ID", "allow_negative_orders", "allow_nonreactant_orders"):
            rec.check(f"{tag}:reaction {n}", getattr(a, n) == getattr(b, n), f"{i}: {getattr(a, n)} {getattr(b, n)}")
        rec.check(f"{tag}:orders", a.orders.keys() == b.orders.keys(), f"{a.orders} {b.orders}")
        for k in a.orders:
            rec.close(f"{tag}:orders", a.orders[k], b.orders[k], 1e-13)
        ta, tb = a.third_body, b.third_body
        rec.check(f"{tag}:third body", (ta is None) == (tb is None), str(i))
        if ta is not None:
            rec.check(f"{tag}:third body name", ta.name == tb.name, f"{ta.name} {tb.name}")
            e, f = dict(ta.efficiencies), dict(tb.efficiencies)
            rec.check(f"{tag}:third body default", ta.default_efficiency == tb.default_efficiency)
            for k in set(e) | set(f):
                rec.close(f"{tag}:efficiency", e.get(k, ta.default_efficiency), f.get(k, tb.default_efficiency), 1e-13, 0, k)

@sub("P19", "gas mechanisms", gas_case, quick=500, thorough=15000, shards=2, tshards=8, floor=0.7,
     rule="generated gas mechanisms (ideal and real gases, all rate types, transport models, user data in species and reactions) written in generated units and read back")
def gas(c, rec):
    import tempfile
    y = c["y"]
    try:
        p = ct.Solution(yaml=json.dumps(y))
    except ct.CanteraError as e:
        rec.skip("not accepted: " + str(e)[:40])
    try:
        p.TPX = c["T"], c["P"], c["X"]
    except ct.CanteraError:
        rec.skip("state refused")
    kw = {}
    if c["units"]: kw["units"] = c["units"]
    if c["prec"] and c["way"] in ("string", "file"): kw["precision"] = c["prec"]
    way = c["way"]
    if way == "pickle":
        q = pickle.loads(pickle.dumps(p))
    elif way == "file":
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "m.yaml"); p.write_yaml(f, **kw); q = ct.Solution(f)
    elif way == "twice":
        q = ct.Solution(yaml=ct.Solution(yaml=p.write_yaml(**kw)).write_yaml())
    elif way == "input_data":
        sp = [ct.Species.from_dict(s.input_data) for s in p.species()]
        q = ct.Solution(thermo=p.thermo_model, kinetics="gas", transport_model=p.transport_model, species=sp, name=p.name)
        for r in p.reactions():
            q.add_reaction(ct.Reaction.from_dict(r.input_data, kinetics=q))
    elif way == "from species and reactions":
        q = ct.Solution(thermo=p.thermo_model, kinetics="gas", transport_model=p.transport_model, species=p.species(), reactions=p.reactions(), name=p.name)
    else:
        q = ct.Solution(yaml=p.write_yaml(**kw))
    prec = kw.get("precision") or 15
    params(rec, way, p, q, max(10.0**-prec * 5, 1e-13))
    rec.check(f"{way}:transport model", p.transport_model == q.transport_model, f"{p.transport_model} {q.transport_model}")
    if prec < 15:
        rec.hit("precision")
        return
    rx(rec, way, p, q)
    by = {s["name"]: s for s in y["species"]}
    for s in q.species():
        u = by[s.name].get("my data")
        if u is not None:
            rec.check("species user data", same(s.input_data.get("my data"), u), f"{u!r} {s.input_data.get('my data')!r}")
    for r, o in zip(q.reactions(), y["reactions"]):
        if "my data" in o:
            if way == "input_data": o = hyphens(o)
            rec.check("reaction user data", same(r.input_data.get("my data"), o["my data"]), f"{o['my data']!r} {r.input_data.get('my data')!r}")
    if way in ("string", "file", "pickle", "twice"):
        rec.close(f"{way}:stored state", p.TPX[0:2], q.TPX[0:2], 1e-9 if "ideal" not in p.thermo_model else 1e-11)
        rec.close(f"{way}:stored X", p.X, q.X, 1e-12, 1e-14)
    try:
        q.TPX = p.TPX
    except ct.CanteraError:
        rec.skip("state refused")
    names = p3.TH + (p3.KI if p.n_reactions else [])
    names = [n for n in names if n != "electrochemical_potentials"]
    if p.transport_model not in ("none", "None", None):
        names = names + p3.TR
    p3.compare(rec, p, q, names, way, 1e-8)
    rec.hit(way)

# ------------------------------------------------------------------ surfaces and several phases
@st.composite
def surf_case(draw):
    m = draw(mechgen.surf_mech(gas_reactions=draw(st.booleans())))
    return {"m": m, "T": draw(uni(400, 1500)), "P": draw(logu(1e3, 1e6)), "Xg": draw(fractions(m["ng"])), "cov": draw(fractions(m["ns"])), "units": draw(units()),
            "phi": draw(st.sampled_from([0.0, 0.3, -0.5])), "way": draw(st.sampled_from(["file", "input_data"]))}

@sub("P19", "interfaces", surf_case, quick=350, thorough=10000, shards=1, tshards=8, floor=0.7,
     rule="generated surface and electrochemical mechanisms with the adjacent phases, written and read back, or rebuilt from the input_data of their reactions")
def interfaces(c, rec):
    import tempfile
    y = c["m"]["yaml"]
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "m.yaml"); open(f, "w").write(json.dumps(y))
        try:
            p = ct.Interface(f, "surf")
        except ct.CanteraError as e:
            rec.skip("not accepted: " + str(e)[:40])
        g = p.adjacent
        bulk = [g[k] for k in g]
        def put(s):
            for k, b in s.adjacent.items():
                b.TP = c["T"], c["P"]
            b = list(s.adjacent.values())[0]
            b.TPX = c["T"], c["P"], c["Xg"]
            if "metal" in s.adjacent:
                s.adjacent["metal"].electric_potential = c["phi"]
            s.TP = c["T"], c["P"]
            s.coverages = c["cov"]
        put(p)
        kw = {"units": c["units"]} if c["units"] else {}
        h = os.path.join(t, "n.yaml")
        p.write_yaml(h, **kw)
        q = ct.Interface(h, "surf")
        rec.check("adjacent phases", list(p.adjacent) == list(q.adjacent), f"{list(p.adjacent)} {list(q.adjacent)}")
        for k in p.adjacent:
            a, b = p.adjacent[k], q.adjacent[k]
            params(rec, "adjacent", a, b, 1e-14)
            rec.close("adjacent:stored", [a.T, a.density], [b.T, b.density], 1e-11)
            rec.close("adjacent:stored X", a.X, b.X, 1e-12, 1e-14)
            rec.close("adjacent:reactions", a.n_reactions, b.n_reactions) if isinstance(a, ct.Kinetics) else None
        params(rec, "surface", p, q, 1e-13)
        rec.close("site density", p.site_density, q.site_density, 1e-13)
        rec.close("stored coverages", p.coverages, q.coverages, 1e-11, 1e-14)
        rx(rec, "surface", p, q)
        if c["way"] == "input_data":
            # change every reaction of the copy, then put back what input_data says
            for i in range(p.n_reactions):
                q.modify_reaction(i, ct.Reaction.from_dict(p.reaction(i).input_data, kinetics=q))
        put(q)
        KI = [n for n in p3.KI if "_dd" not in n and n != "third_body_concentrations"]
        TH = ["T", "P", "density", "h", "s", "g", "cp", "mean_molecular_weight", "X", "chemical_potentials", "partial_molar_enthalpies", "partial_molar_entropies", "standard_gibbs_RT", "concentrations", "electrochemical_potentials"]
        p3.compare(rec, p, q, TH + KI, "surface", 1e-8)
        for k in p.adjacent:
            a, b = p.adjacent[k], q.adjacent[k]
            p3.compare(rec, a, b, TH + (KI if isinstance(a, ct.Kinetics) and a.n_reactions else []), "adjacent", 1e-8)
        rec.hit(c["m"]["kind"] + " " + c["way"])
