"""P09: reaction rates conserve elements, charge and sites and agree with equilibrium.
A case is a mechanism (generated or shipped; bulk, interface or charge-transfer) and a
state.  Elements, charge and surface sites must balance in every reaction and in the net
production rates; the ratio of forward to reverse rate of every reversible reaction must
be exp(-dG/RT) from the (electro)chemical potentials; at an equilibrium composition net
rates vanish; an unbalanced reaction is refused.  Non-trivial: a reversible reaction with
nonzero rates in both directions was compared."""
import copy, json, math, os
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, mechgen, mechref
from gen import uni, logu, fractions
from p08_rates import load, load_surf, put_surf, LIBM, libgas

R, F = ct.gas_constant, ct.faraday

def ratio(rec, g, mu, dnu, rev, tag, tol=1e-8):
    qf, qr = g.forward_rates_of_progress, g.reverse_rates_of_progress
    RT = R * g.T
    n = 0
    scale = np.abs(dnu).T @ np.where(np.isfinite(mu), np.abs(mu), 0) / RT
    for j in range(g.n_reactions):
        if not rev[j]:
            rec.check(tag + "irreversible", qr[j] == 0, f"reaction {j}: reverse rate {qr[j]}")
            continue
        if not (1e-200 < abs(qf[j]) < 1e200 and 1e-200 < abs(qr[j]) < 1e200):
            continue
        k = dnu[:, j] != 0
        dG = float(dnu[k, j] @ mu[k]) / RT
        if not math.isfinite(dG):
            continue
        rec.close(tag + "ratio", math.log(qf[j] / qr[j]), -dG, 1e-9, tol + 1e-12 * scale[j], f"reaction {j}: {g.reaction(j).equation}")
        n += 1
    return n

def conserve(rec, phases, rates, weights, tag):
    """sum over species of amount(species) * rate = 0 for elements, charge, sites."""
    for what, w in weights.items():
        s = float(w @ rates); a = float(np.abs(w) @ np.abs(rates))
        rec.close(tag + what, s, 0.0, 0, 1e-11 * a + 1e-300, "net production")

def nonzero(x):
    return np.where(np.isfinite(x), x, 0.0)

def elements(p):
    return {e: np.array([p.n_atoms(s, e) for s in p.species_names], float) for e in p.element_names}

@st.composite
def bulk_case(draw):
    m = draw(mechgen.gas_mech(nmin=2, nmax=9, with_transport=None, model=draw(st.sampled_from(["ideal-gas", "ideal-gas", "Redlich-Kwong", "Peng-Robinson"]))))
    return {"m": m["yaml"], "n": m["n"], "T": draw(uni(400, 3000)), "P": draw(logu(1e2, 1e7)), "X": draw(fractions(m["n"])),
            "how": draw(st.sampled_from(["load", "add", "subset"])), "eq": draw(st.booleans())}

@sub("P09", "bulk", bulk_case, quick=3000, thorough=80000, shards=4, tshards=8, floor=0.5,
     rule="generated gas mechanisms over ideal and cubic equations of state, loaded at once or built reaction by reaction")
def bulk(c, rec):
    g = load(rec, c["m"])
    rx = c["m"]["reactions"]
    if not rx:
        rec.skip("no reactions")
    if c["how"] != "load":
        # the same mechanism assembled through the Python interface
        rs = g.reactions()
        if c["how"] == "subset":
            rs = rs[::-1]
        h = ct.Solution(thermo=g.thermo_model, kinetics="bulk" if g.thermo_model != "ideal-gas" else "gas", species=g.species(), reactions=[])
        try:
            for r in rs:
                h.add_reaction(r)
        except ct.CanteraError as e:
            rec.fail("add", str(e)[:500])
        h.TPX = c["T"], c["P"], c["X"]
        g.TPX = c["T"], c["P"], c["X"]
        sc = (g.reactant_stoich_coeffs + g.product_stoich_coeffs) @ np.abs(g.forward_rates_of_progress) + 1e-300
        a, b = h.net_production_rates, g.net_production_rates
        if np.isfinite(a).all() and np.isfinite(b).all():
            rec.close("assembled", a, b, 1e-9, 1e-11 * (sc + (g.reactant_stoich_coeffs + g.product_stoich_coeffs) @ np.abs(g.reverse_rates_of_progress)))
    g.TPX = c["T"], c["P"], c["X"]
    el = elements(g)
    dnu = g.product_stoich_coeffs - g.reactant_stoich_coeffs
    for e, w in el.items():
        rec.close("reaction-" + e, w @ dnu, 0, 0, 1e-10, "stoichiometry")
    rev = [r.reversible for r in g.reactions()]
    for j, r in enumerate(g.reactions()):
        rec.check("reversible", r.reversible == ("<=>" in rx[j]["equation"]))
        for s in g.species_names:
            nr, npp = r.reactants.get(s, 0), r.products.get(s, 0)
            rec.close("stoich", g.product_stoich_coeffs[g.species_index(s), j] - g.reactant_stoich_coeffs[g.species_index(s), j], npp - nr, 1e-12, 0)
    w = nonzero(g.net_production_rates)
    mag = (g.reactant_stoich_coeffs + g.product_stoich_coeffs) @ nonzero(np.abs(g.forward_rates_of_progress) + np.abs(g.reverse_rates_of_progress))
    if np.isfinite(g.net_production_rates).all() and mag.max() < 1e250:
        for e, v in el.items():
            rec.close("element", v @ w, 0, 0, 1e-11 * (v @ mag) + 1e-290, e)
        rec.close("mass", g.molecular_weights @ w, 0, 0, 1e-11 * (g.molecular_weights @ mag) + 1e-290)
    mu = g.chemical_potentials
    # the reverse rate of P-dependent real-gas reactions is limited by explicit third bodies counted as molecules on both sides
    n = ratio(rec, g, mu, dnu, rev, "" if g.thermo_model == "ideal-gas" else "real:")
    if c["eq"] and g.thermo_model == "ideal-gas" and min(c["X"]) >= 0:
        try:
            g.equilibrate("TP", rtol=1e-10)
        except ct.CanteraError:
            g.TPX = c["T"], c["P"], c["X"]
        else:
            qf, qr, qn = g.forward_rates_of_progress, g.reverse_rates_of_progress, g.net_rates_of_progress
            for j in range(g.n_reactions):
                if rev[j] and 1e-200 < qf[j] < 1e200 and (g.X[dnu[:, j] != 0] > 1e-25).all():
                    rec.close("equilibrium", qn[j] / qf[j], 0, 0, 1e-5, f"{rx[j]['equation']}")
                    n += 1
    if n:
        rec.hit()

@st.composite
def surf_case(draw):
    m = draw(mechgen.surf_mech(nmin=1, nmax=8))
    return {"m": m["yaml"], "kind": m["kind"], "T": draw(uni(300, 1800)), "P": draw(logu(1e2, 1e6)), "Xg": draw(fractions(m["ng"])),
            "th": draw(fractions(m["ns"])), "phi": [draw(st.sampled_from([0.0, 0.0, 0.3, -0.8])) for _ in range(3)]}

@sub("P09", "interface", surf_case, quick=3000, thorough=80000, shards=4, tshards=8, floor=0.5,
     rule="surface and charge-transfer mechanisms with multi-site species, sticking, coverage dependencies and electric potentials")
def interface(c, rec):
    s = load_surf(rec, c)
    rx = c["m"]["surf-reactions"]
    if not rx:
        rec.skip("no reactions")
    phases = put_surf(s, c)
    N = s.n_total_species
    names = [s.kinetics_species_name(i) for i in range(N)]
    W = {}
    mu = np.zeros(N); z = np.zeros(N); site = np.zeros(N)
    for p in phases:
        m = p.electrochemical_potentials
        for k, n in enumerate(p.species_names):
            i = s.kinetics_species_index(n)
            mu[i] = m[k]; z[i] = p.charges[k]
            if p is s:
                site[i] = p.species(k).size
            for e in p.element_names:
                W.setdefault(e, np.zeros(N))[i] = p.n_atoms(n, e)
    dnu = s.product_stoich_coeffs - s.reactant_stoich_coeffs
    W["charge"] = z
    W["sites"] = site
    for e, w in W.items():
        rec.close("reaction-" + e, w @ dnu, 0, 0, 1e-10, "stoichiometry")
    w = s.net_production_rates
    mag = (s.reactant_stoich_coeffs + s.product_stoich_coeffs) @ (np.abs(s.forward_rates_of_progress) + np.abs(s.reverse_rates_of_progress))
    if np.isfinite(w).all() and np.isfinite(mag).all() and mag.max() < 1e250:
        for e, v in W.items():
            rec.close("total-" + e, v @ w, 0, 0, 1e-11 * (np.abs(v) @ mag) + 1e-290, e)
        rec.close("creation-destruction", s.creation_rates - s.destruction_rates, w, 1e-10, 1e-12 * mag)
    rev = [r.reversible for r in s.reactions()]
    if ratio(rec, s, mu, dnu, rev, c["kind"] + ":"):
        rec.hit(c["kind"])

# ------------------------------------------------------------------ shipped mechanisms
LIBS = [("ptcombust.yaml", "Pt_surf"), ("methane_pox_on_pt.yaml", "Pt_surf"), ("sofc.yaml", "tpb"), ("sofc.yaml", "metal_surface"), ("sofc.yaml", "oxide_surface"),
        ("lithium_ion_battery.yaml", "edge_anode_electrolyte"), ("lithium_ion_battery.yaml", "edge_cathode_electrolyte"), ("diamond.yaml", "diamond_100")]

@st.composite
def lib_case(draw):
    return {"s": draw(st.booleans()), "f": draw(st.integers(0, 40)), "T": draw(uni(500, 2900)), "P": draw(logu(1e3, 1e7)), "X": draw(fractions(8, zeros=False)),
            "th": draw(fractions(6, zeros=False)), "phi": draw(uni(-1, 1)), "k": draw(st.integers(0, 50))}

_if = {}
def spread(x, n, k):
    v = np.full(n, 1e-4)
    for i, w in enumerate(x):
        v[(i * 11 + k) % n] += w
    return v / v.sum()

@sub("P09", "library", lib_case, quick=800, thorough=20000, shards=2, tshards=8, floor=0.8,
     rule="13 shipped and test gas mechanisms and 8 shipped interfaces at generated states")
def library(c, rec):
    if not c["s"]:
        f, ph = LIBM[c["f"] % len(LIBM)]
        g, _ = libgas(f, ph)
        g.TPX = c["T"], c["P"], spread(c["X"], g.n_species, c["k"])
        el = elements(g)
        dnu = g.product_stoich_coeffs - g.reactant_stoich_coeffs
        w = g.net_production_rates
        mag = (g.reactant_stoich_coeffs + g.product_stoich_coeffs) @ (np.abs(g.forward_rates_of_progress) + np.abs(g.reverse_rates_of_progress))
        for e, v in el.items():
            rec.close("element", v @ w, 0, 0, 1e-11 * (np.abs(v) @ mag), f"{f} {e}")
        if ratio(rec, g, g.chemical_potentials, dnu, [r.reversible for r in g.reactions()], f + ":", 1e-7):
            rec.hit(f)
        return
    f, ph = LIBS[c["f"] % len(LIBS)]
    if (f, ph) not in _if:
        _if[f, ph] = ct.Interface(f, ph)
    s = _if[f, ph]
    T = min(c["T"], 1500) if "battery" not in f else 300 + (c["T"] - 500) / 40
    ps = [s] + list(s.adjacent.values())
    for i, p in enumerate(ps):
        p.TP = T, c["P"]
        if p is s:
            p.coverages = spread(c["th"], p.n_species, c["k"])
        elif p.n_species > 1:
            x = spread(c["X"], p.n_species, c["k"])
            if "battery" in f and p.thermo_model == "binary-solution-tabulated":
                x = np.array([0.3 + 0.4 * c["X"][0] / sum(c["X"]), 0]); x[1] = 1 - x[0]
            p.TPX = T, c["P"], x
        p.electric_potential = c["phi"] * i
    N = s.n_total_species
    mu = np.full(N, np.nan); W = {"charge": np.zeros(N)}
    for p in ps:
        try:
            m = p.electrochemical_potentials
        except NotImplementedError:
            m = np.full(p.n_species, np.nan)
        for k, n in enumerate(p.species_names):
            i = s.kinetics_species_index(n)
            mu[i] = m[k]; W["charge"][i] = p.charges[k]
            for e in p.element_names:
                W.setdefault(e, np.zeros(N))[i] = p.n_atoms(n, e)
    w = s.net_production_rates
    dnu = s.product_stoich_coeffs - s.reactant_stoich_coeffs
    mag = (s.reactant_stoich_coeffs + s.product_stoich_coeffs) @ (np.abs(s.forward_rates_of_progress) + np.abs(s.reverse_rates_of_progress))
    for e, v in W.items():
        rec.close("element", v @ w, 0, 0, 1e-10 * (np.abs(v) @ mag) + 1e-290, f"{f} {ph} {e}")
    if ratio(rec, s, mu, dnu, [r.reversible for r in s.reactions()], f"{f}/{ph}:", 1e-7):
        rec.hit(f"{f} {ph}")

# ------------------------------------------------------------------ unbalanced reactions are refused
@st.composite
def bad_case(draw):
    surf = draw(st.booleans())
    m = draw(mechgen.surf_mech(nmin=1, nmax=4) if surf else mechgen.gas_mech(nmin=1, nmax=4, with_transport=None, duplicates=False))
    return {"surf": surf, "m": m["yaml"], "i": draw(st.integers(0, 10)), "side": draw(st.integers(0, 1)), "k": draw(st.integers(0, 20)),
            "n": draw(st.sampled_from([1, 1, 2, 0.5, 0.01]))}

@sub("P09", "unbalanced", bad_case, quick=1200, thorough=20000, shards=2, tshards=8, floor=0.6,
     rule="one reaction of a good mechanism gets a species added to one side: elements, charge or sites no longer balance, and loading must fail")
def unbalanced(c, rec):
    key = "surf-reactions" if c["surf"] else "reactions"
    y = copy.deepcopy(c["m"])
    if not y[key]:
        rec.skip("no reactions")
    d = y[key][c["i"] % len(y[key])]
    names = y["phases"][-1]["species"] if c["surf"] and c["k"] % 2 else y["phases"][0]["species"]
    comp = {s["name"]: s for s in y["species"]}
    s = names[c["k"] % len(names)]
    arrow = " <=> " if " <=> " in d["equation"] else " => "
    sides = d["equation"].split(arrow)
    sides[c["side"]] += f" + {c['n']} {s}" if c["n"] != 1 else f" + {s}"
    try:
        ct.Interface(yaml=json.dumps(c["m"]), name="surf") if c["surf"] else ct.Solution(yaml=json.dumps(c["m"]))
    except ct.CanteraError:
        rec.skip("base mechanism refused")
    d["equation"] = arrow.join(sides)
    d.pop("orders", None); d.pop("nonreactant-orders", None)
    try:
        ct.Interface(yaml=json.dumps(y), name="surf") if c["surf"] else ct.Solution(yaml=json.dumps(y))
    except ct.CanteraError as e:
        rec.hit("refused")
        return
    rec.fail("accepted", f"unbalanced reaction accepted: {d['equation']}")
