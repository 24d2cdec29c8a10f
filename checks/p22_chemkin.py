"""P22: converting a Chemkin mechanism gives the mechanism it describes, and back.
convert: an independent writer renders a generated mechanism as Chemkin input (units, layout, keyword
order and case, separate files and species names drawn); the result of ck2yaml must be the mechanism.
roundtrip: a loaded mechanism written by yaml2ck and read back by ck2yaml must be the same mechanism."""
import copy, json, os, shutil, tempfile, contextlib, io
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from cantera import ck2yaml, yaml2ck
from vp import sub
import gen, mechgen
from gen import uni, logu, fractions
from p28_invariance import rename

TYPES = ["elementary", "elementary", "elementary", "three-body", "three-body", "collider", "Lindemann", "Troe", "SRI", "chem-act",
         "plog", "chebyshev"]
NAMES = ["CH2(S)", "O(1D)", "N-C4", "h2o2", "HV2", "M1", "C#C", "A,B", "AB'", "H2O+", "X*", "SLOW", "HIGHT", "SRI3", "REVA", "DUPL", "COV2",
         "TROEX", "PLOG1", "UNITSX", "FORDA", "STICKY", "Mg", "(S)A", "C[2]H", "A_very_long_name", "E", "He2", "END1", "ISRIX", "B.C"]
EU = {"CAL/MOLE": 4184.0, "": 4184.0, "KCAL/MOLE": 4.184e6, "JOULES/MOLE": 1e3, "KJOULES/MOLE": 1e6, "KELVINS": ct.gas_constant,
      "KELVIN": ct.gas_constant, "EVOLTS": ct.electron_charge * ct.avogadro, "KCAL/MOL": 4.184e6}
QU = {"": 1.0, "MOLES": 1.0, "MOLE": 1.0, "MOLECULES": 1e-3 * ct.avogadro, "MOLEC": 1e-3 * ct.avogadro}
QU = {k: (1.0 if v == 1 else ct.avogadro * 1e-3) for k, v in QU.items()}

def r8(v):
    return float("%.8E" % v)

def thermo_rounded(sp, mid=None):
    for s in sp:
        t = s["thermo"]
        t["temperature-ranges"] = [float("%.3f" % x) for x in t["temperature-ranges"]]
        t["data"] = [[r8(v) for v in row] for row in t["data"]]

class Style:
    """Layout choices, drawn as a list of small integers and used cyclically"""
    def __init__(self, seq):
        self.seq, self.i = seq, 0
    def __call__(self, n):
        v = self.seq[self.i % len(self.seq)] + self.i // len(self.seq)
        self.i += 1
        return v % n

def num(v, s):
    return [repr(float(v)), "%.15E" % v, "%.15e" % v, ("%.15E" % v).replace("E+", "E")][s(4)]

def case(w, s):
    return [w, w.lower(), w.capitalize()][s(3)]

def nasa7_lines(sp, s, default_mid, ext):
    t = sp["thermo"]; T = t["temperature-ranges"]; lo, hi = t["data"][0], t["data"][-1]
    single = len(t["data"]) == 1
    if single:
        T = [T[0], [T[0], T[1], 1000.0][s(3)], T[1]]
        how = s(3)
        if how and T[1] not in (T[0], T[2]):
            how = 0
        lo, hi = (lo, hi) if how == 0 else ([0.0] * 7, hi) if how == 1 else (lo, [0.0] * 7)
    note = ["", "L 1/90", "tpis78"][s(3)] if len(sp["name"]) < 16 else ""
    comp = list(sp["composition"].items())
    els = "".join(f"{e.upper():<2}{n:>3d}" for e, n in comp)
    fixed = f"{els:<20}"
    tail = ""
    if ext == 1:
        fixed, tail = " " * 20, "&\n" + " ".join(f"{e.upper()} {n}" for e, n in comp)
    elif ext == 2:
        fixed, tail = " " * 20, "".join(f"{e.upper():<2}{n:>8d}" for e, n in comp)
    elif ext == 3:
        fixed = f"{els}{'0    0    0    0    '[:20 - len(els)]}" if len(els) <= 15 else fixed
    mid = f"{T[1]:>8.2f}  " if not (T[1] == default_mid and not single and s(2)) else " " * 10
    if float(f"{T[1]:.2f}") != T[1]:
        mid = f"{T[1]:<10.3f}"
    head = f"{sp['name']:<18}{note:<6}{fixed}G{T[0]:>10.3f}{T[2]:>10.3f}{mid}"
    out = [f"{head:<79}1{tail}"]
    f = lambda c: "".join(f"{v: .8E}" for v in c)
    out.append(f"{f(hi[:5]):<79}2")
    out.append(f"{f(hi[5:] + lo[:3]):<79}3")
    out.append(f"{f(lo[3:]):<79}4")
    return "\n".join(out)

def nasa9_lines(sp, s):
    t = sp["thermo"]; T = t["temperature-ranges"]
    els = "".join(f"{e.upper():<2}{n:>6.2f}" for e, n in sp["composition"].items())
    out = [f"{sp['name']:<18}a comment", f"{len(T) - 1:2d} g 1/01 {els:<40} 0 {20.0:12.7f} {0.0:15.3f}"]
    for i, c in enumerate(t["data"]):
        out.append(f" {T[i]:10.3f}{T[i + 1]:10.3f}7 -2.0 -1.0  0.0  1.0  2.0  3.0  4.0  0.0 {0.0:15.3f}")
        f = lambda v: (f"{v:16.8E}").replace("E", "D" if s(2) else "E")
        out.append("".join(f(v) for v in c[:5]))
        out.append("".join(f(v) for v in c[5:7]) + " " * 16 + "".join(f(v) for v in c[7:]))
    return "\n".join(out)

def order_of(r, names, falloff_extra=0):
    """Order of the reaction for the units of the main rate constant; the orders given override the stoichiometry"""
    lhs = r["equation"].replace("<=>", "=>").split("=>")[0]
    tot = 0
    for tok in lhs.split(" + "):
        tok = tok.strip().split(" ")
        tok = [x for x in tok if not x.startswith("(+")]
        k = float(tok[0]) if len(tok) > 1 else 1.0
        if tok[-1] == "M":
            tot += 1
        elif tok[-1] in r.get("orders", {}):
            continue
        else:
            tot += k
    return tot + sum(r.get("orders", {}).values())

def convA(A, order, q):
    # (m^3/kmol)^(order-1) -> (cm^3/mol)^(order-1) or (cm^3/molec)^(order-1)
    return A * (1e3 / (1.0 if q == 1 else ct.avogadro * 1e-3)) ** (order - 1)

def reaction_lines(r, names, s, e, q, per_unit=None):
    E = EU[e]; Q = QU[q]
    aux = []
    if per_unit:
        pe, pq = per_unit
        if pe:
            E = EU[pe]; aux.append(f"{case('UNITS', s)}/{pe}/")
        if pq:
            Q = QU[pq]; aux.append(f"{case('UNITS', s)} / {pq} /")
    t = r.get("type", "elementary")
    eq = r["equation"]
    sep = ["<=>", "="][s(2)]
    eq = eq.replace("<=>", sep)
    if s(3) == 0:
        # glue everything together, "2 H" -> "2H"
        eq = eq.replace(" ", "")
    n = order_of(r, names)
    arr = lambda k, m: f"{num(convA(k['A'], m, Q), s)} {num(k['b'], s)} {num(k['Ea'] / E, s)}"
    sl = lambda k: [f"{k}/", f"{k} / ", f"{k}  /"][s(3)]
    if t == "falloff":
        main = arr(r["high-P-rate-constant"], n)
        aux.append(f"{sl(case('LOW', s))}{arr(r['low-P-rate-constant'], n + 1)}/")
    elif t == "chemically-activated":
        main = arr(r["low-P-rate-constant"], n)
        aux.append(f"{sl(case('HIGH', s))}{arr(r['high-P-rate-constant'], n - 1)}/")
    elif t == "pressure-dependent-Arrhenius":
        main = arr(r["rate-constants"][0], n)
        for k in r["rate-constants"]:
            aux.append(f"{sl('PLOG')}{num(k['P'] / ct.one_atm, s)} {arr(k, n)}/")
    elif t == "Chebyshev":
        main = "1.0 0.0 0.0"
        d = [list(x) for x in r["data"]]
        d[0][0] += np.log10(convA(1.0, n, Q))
        flat = [v for row in d for v in row]
        T, P = r["temperature-range"], [x / ct.one_atm for x in r["pressure-range"]]
        rng = [f"TCHEB/ {T[0]} {T[1]} /", f"PCHEB/ {num(P[0], s)} {num(P[1], s)} /"]
        aux += [" ".join(rng)] if s(2) else rng
        lay = s(3)
        dim = f"{len(d)} {len(d[0])}"
        if lay == 0:
            aux.append(f"CHEB/ {dim} " + " ".join(num(v, s) for v in flat) + " /")
        elif lay == 1:
            aux.append(f"CHEB/ {dim} /")
            aux += ["CHEB/ " + " ".join(num(v, s) for v in row) + " /" for row in d]
        else:
            aux.append(f"CHEB/ {dim} " + num(flat[0], s) + " /")
            aux += [f"CHEB/ {num(v, s)} /" for v in flat[1:]]
    else:
        main = arr(r["rate-constant"], n)
    if "Troe" in r:
        aux.append(f"{sl(case('TROE', s))}" + " ".join(num(r["Troe"][k], s) for k in ("A", "T3", "T1", "T2") if k in r["Troe"]) + "/")
    if "SRI" in r:
        aux.append(f"{sl(case('SRI', s))}" + " ".join(num(r["SRI"][k], s) for k in "ABCDE" if k in r["SRI"]) + "/")
    ef = [f"{k}/{num(v, s)}/" for k, v in r.get("efficiencies", {}).items()]
    if ef:
        if s(2):
            aux.append(" ".join(ef))
        else:
            aux += [" ".join(ef[:1])] + ([" ".join(ef[1:])] if ef[1:] else [])
    for k, v in r.get("orders", {}).items():
        aux.append(f"{sl(case('FORD', s))}{k} {num(v, s)}/")
    if r.get("duplicate"):
        aux.append(case(["DUP", "DUPLICATE"][s(2)], s))
    if "REV" in r:
        m = r["REV"]["order"]
        aux.append(f"{sl(case('REV', s))}{arr(r['REV'], m)}/")
    out = [f"{eq}  {main}" + ["", "  ! a comment / with = signs", " !"][s(3)]]
    if t != "Chebyshev" and s(2) and len(aux) > 1 and t != "pressure-dependent-Arrhenius":
        k = s(len(aux))
        aux = aux[k:] + aux[:k]
    for a in aux:
        out.append([" ", "", "    "][s(3)] + a + ["", " ! x/1.0/"][s(2)])
        if s(6) == 0:
            out.append(["", "! only a comment", "   "][s(3)])
    return "\n".join(out)

GEO = {"atom": 0, "linear": 1, "nonlinear": 2}

def transport_lines(sp, s):
    t = sp["transport"]
    v = [t["well-depth"], t["diameter"], t.get("dipole", 0.0), t.get("polarizability", 0.0), t.get("rotational-relaxation", 0.0)]
    return f"{sp['name']:<16} {GEO[t['geometry']]} " + " ".join(f"{x:10.3f}" if float(f"{x:.3f}") == x else repr(x) for x in v) + ["", " ! note"][s(2)]

def write_chemkin(c):
    """(mechanism text, thermo text or None, transport text or None)"""
    s = Style(c["style"])
    y = c["yaml"]; sp = y["species"]; names = [x["name"] for x in sp]
    els = [e.upper() for e in y["phases"][0]["elements"]]
    head = ["! mechanism written by the test" if s(2) else ""]
    w = ["ELEMENTS", "ELEM", "elements"][s(3)]
    head += [f"{w} {' '.join(els)} END"] if s(2) else [w] + els + ["END"]
    w = ["SPECIES", "SPEC", "species"][s(3)]
    head += [w] + ([" ".join(names)] if s(2) else [n + ["", " ! a species"][s(2)] for n in names]) + ["END"]
    if c["nasa9"]:
        th = ["THERMO NASA9"] + (["   200.000  1000.000  6000.000 20000.000   1/01/01"] if s(2) else []) + [nasa9_lines(x, s) for x in sp] + ["END"]
    else:
        dm = 1000.0
        th = [["THERMO ALL", "THERMO", "THERM ALL"][s(3)], "   300.000  1000.000  5000.000"]
        for x in sp:
            th.append(nasa7_lines(x, s, dm, s(5)))
            if s(5) == 0:
                th.append("! a comment between entries")
        th.append("END")
    rx = [" ".join(x for x in (["REACTIONS", "REAC", "reactions"][s(3)], c["E"], c["Q"]) if x)]
    for r, pu in zip(y["reactions"], c["per"]):
        rx.append(reaction_lines(r, names, s, c["E"], c["Q"], pu))
    rx.append("END")
    tr = [transport_lines(x, s) for x in sp]
    m = list(head)
    tht = trt = None
    if c["thermo_file"]:
        tht = "\n".join(th) + "\n"
    else:
        m += th
    m += rx
    if c["transport_file"]:
        trt = "\n".join(tr) + "\n"
    else:
        m += ["TRANSPORT"] + tr + ["END"]
    return "\n".join(m) + "\n", tht, trt

def si_yaml(y):
    y = copy.deepcopy(y)
    out = []
    for r in y["reactions"]:
        rev = r.pop("REV", None)
        out.append(r)
        if rev:
            L, R = r["equation"].split(" <=> ")
            r["equation"] = f"{L} => {R}"
            q = {"equation": f"{R} => {L}", "rate-constant": {k: rev[k] for k in ("A", "b", "Ea")}}
            for k in ("type", "efficiencies", "duplicate"):
                if k in r:
                    q[k] = r[k]
            if rev["A"] != 0:
                out.append(q)
    y["reactions"] = out
    return y

@st.composite
def mech_case(draw, back=False):
    nasa9 = (not back) and draw(st.integers(0, 5)) == 0
    m = draw(mechgen.gas_mech(types=TYPES, thermo=gen.nasa9(hr=8000.0) if nasa9 else gen.nasa7(zones=2, hr=8000.0),
                              with_transport="mixture-averaged"))
    y = m["yaml"]
    for r in y["reactions"]:
        r.pop("default-efficiency", None) if not back else None
        if r.get("SRI") and "D" not in r["SRI"]:
            pass
    for x in y["species"]:
        t = x["thermo"]
        if nasa9:
            t["temperature-ranges"] = [float("%.3f" % v) for v in t["temperature-ranges"]]
            t["data"] = [[r8(v) for v in row] for row in t["data"]]
    if not nasa9:
        thermo_rounded(y["species"])
        for x in y["species"]:
            if draw(st.integers(0, 7)) == 0:
                # a single temperature range
                q = x["thermo"]; q["data"] = q["data"][:1]; q["temperature-ranges"] = [q["temperature-ranges"][0], q["temperature-ranges"][2]]
    if draw(st.integers(0, 2)) == 0:
        names = m["names"]
        k = draw(st.integers(1, min(4, len(names))))
        new = draw(st.lists(st.sampled_from(NAMES), min_size=k, max_size=k, unique=True))
        old = draw(st.lists(st.sampled_from(names), min_size=k, max_size=k, unique=True))
        mp = {o: n for o, n in zip(old, new)}
        els = y["phases"][0]["elements"]
        y = {k2: rename(v, mp) for k2, v in y.items()}
        y["phases"][0]["elements"] = els
        for a, b in zip(y["species"], m["yaml"]["species"]):
            a["composition"] = b["composition"]
    c = {"yaml": y, "nasa9": nasa9, "T": draw(uni(350, 2800)), "P": draw(logu(1e3, 5e6)), "X": draw(fractions(len(y["species"]), zeros=False))}
    if not back:
        c["E"] = draw(st.sampled_from(sorted(EU))); c["Q"] = draw(st.sampled_from(sorted(QU)))
        c["per"] = [draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from([""] + sorted(EU)), st.sampled_from([""] + sorted(QU)))))
                    for _ in y["reactions"]]
        c["per"] = [list(p) if p else None for p in c["per"]]
        c["style"] = draw(st.lists(st.integers(0, 59), min_size=24, max_size=24))
        c["thermo_file"], c["transport_file"] = draw(st.booleans()), draw(st.booleans())
        for r in y["reactions"]:
            t = r.get("type", "elementary")
            if " <=> " in r["equation"] and "orders" not in r and draw(st.integers(0, 4)) == 0 and t in ("elementary", "three-body") \
               and (("+ M" in r["equation"]) == (t == "three-body")):
                R = r["equation"].split(" <=> ")[1]
                n = order_of({"equation": R + " <=> " + R}, None)
                k = draw(mechgen.arr(int(n)))
                r["REV"] = {**k, "order": n}
                if draw(st.integers(0, 5)) == 0:
                    r["REV"]["A"] = 0.0
    else:
        c["files"] = draw(st.booleans())
        c["sort"] = [draw(st.sampled_from([None, "alphabetical", "molar-mass"])) for _ in range(2)]
    return c

def load(y):
    return ct.Solution(yaml=json.dumps(y), transport_model="mixture-averaged")

def stoich(r):
    """Reactants and products; a named collider of a three-body reaction counts on both sides"""
    out = []
    for d in (r.reactants, r.products):
        d = dict(d)
        if r.reaction_type.startswith("three-body") and r.third_body.name != "M":
            d[r.third_body.name] = d.get(r.third_body.name, 0) + 1
        out.append(d)
    return out

def compare(rec, c, a, b, tk, back=False):
    """a: expected, b: obtained"""
    rec.check("species names", a.species_names == b.species_names, f"{a.species_names} {b.species_names}")
    rec.check("element names", a.element_names == b.element_names, f"{a.element_names} {b.element_names}")
    for s, t in zip(a.species(), b.species()):
        rec.check("composition", dict(s.composition) == dict(t.composition), f"{s.name}: {s.composition} {t.composition}")
        th, tq = s.thermo, t.thermo
        rec.close("thermo range", [tq.min_temp, tq.max_temp], [th.min_temp, th.max_temp], 1e-9, 0, s.name)
        Ts = c["yaml"]["species"][0]
        for T in (th.min_temp, 298.15, 500.0, 999.0, 1001.0, 2000.0, c["T"], th.max_temp):
            T = min(max(T, th.min_temp), th.max_temp)
            rec.close("thermo", [tq.cp(T), tq.h(T) / T, tq.s(T)], [th.cp(T), th.h(T) / T, th.s(T)], 1e-7, 1e-3, f"{s.name} {T}")
        u, v = s.transport, t.transport
        rec.check("geometry", u.geometry == v.geometry, s.name)
        rec.close("transport data", [v.well_depth / ct.boltzmann, v.diameter * 1e10, v.dipole / 3.33564e-30, v.polarizability * 1e30, v.rotational_relaxation],
                  [u.well_depth / ct.boltzmann, u.diameter * 1e10, u.dipole / 3.33564e-30, u.polarizability * 1e30, u.rotational_relaxation],
                  1e-7, 6e-4 if back else 1e-9, s.name)
    rec.check("number of reactions", a.n_reactions == b.n_reactions, f"{a.reaction_equations()} {b.reaction_equations()}")
    for p, q in zip(a.reactions(), b.reactions()):
        rec.check("stoichiometry", stoich(p) == stoich(q), f"{p.equation} {q.equation}")
        rec.check("reversible", p.reversible == q.reversible, p.equation)
        rec.check("duplicate", p.duplicate == q.duplicate, p.equation)
        rec.check("orders", set(p.orders) == set(q.orders) and all(abs(p.orders[k] - q.orders[k]) < 1e-9 for k in p.orders), f"{p.equation} {p.orders} {q.orders}")
    for T in (c["T"], 300.0, 1000.0):
        for g in (a, b):
            g.TPX = T, c["P"], c["X"]
        pe = f"T={T} {a.reaction_equations()}"
        for n in ("forward_rate_constants", "reverse_rate_constants"):
            u, v = getattr(a, n), getattr(b, n)
            ok = (abs(u) < 1e250) & np.isfinite(u)
            rec.close(n, v[ok], u[ok], tk, 1e-250, pe)
        nf = a.forward_rates_of_progress
        if (abs(nf) < 1e200).all():
            rec.close("forward_rates_of_progress", b.forward_rates_of_progress, nf, tk, 1e-250, pe)
    a.TPX = b.TPX = c["T"], c["P"], c["X"]
    va, vb = (a.viscosity, b.viscosity)
    rec.close("viscosity", vb, va, 2e-3 if back else 1e-6)

@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="p22_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)

@sub("P22", "convert", mech_case, quick=1000, thorough=30000, shards=2, tshards=6, floor=0.7,
     rule="a mechanism with at least two reactions written as Chemkin input was converted and loaded")
def convert(c, rec):
    y = si_yaml(c["yaml"])
    try:
        a = load(y)
    except ct.CanteraError as e:
        return rec.skip("mechanism rejected")
    txt, th, tr = write_chemkin(c)
    with scratch() as d:
        for n, t in (("mech.inp", txt), ("therm.dat", th), ("tran.dat", tr)):
            if t is not None:
                with open(f"{d}/{n}", "w") as f:
                    f.write(t)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                ck2yaml.convert(f"{d}/mech.inp", thermo_file=f"{d}/therm.dat" if th else None, transport_file=f"{d}/tran.dat" if tr else None,
                                out_name=f"{d}/out.yaml", quiet=True)
            except Exception as e:
                return rec.fail("converts", f"{type(e).__name__} {str(e)[:600]}")
        try:
            b = ct.Solution(f"{d}/out.yaml")
        except ct.CanteraError as e:
            return rec.fail("loads", str(e)[-700:])
    for r, p in zip(c["yaml"]["reactions"], c["per"]):
        rec.label(r.get("type", "elementary"))
        for k in ("Troe", "SRI", "orders", "REV", "duplicate", "efficiencies"):
            if k in r:
                rec.label(k)
        if p and any(p):
            rec.label("per-reaction units")
    rec.label("NASA9" if c["nasa9"] else "NASA7")
    # a rate constant in a quantity unit that is not that of the file is written with seven digits
    compare(rec, c, a, b, 2e-6)
    if len(c["yaml"]["reactions"]) >= 2:
        rec.hit()

@st.composite
def back_case(draw):
    return draw(mech_case(back=True))

@sub("P22", "roundtrip", back_case, quick=800, thorough=25000, shards=2, tshards=6, floor=0.7,
     rule="a mechanism with at least two reactions was written as Chemkin input and converted back")
def roundtrip(c, rec):
    y = copy.deepcopy(c["yaml"])
    try:
        a = load(y)
    except ct.CanteraError as e:
        return rec.skip("mechanism rejected")
    # the documented precision of the writer
    with scratch() as d:
        kw = {}
        if c["files"]:
            kw = {"thermo_path": f"{d}/therm.dat", "transport_path": f"{d}/tran.dat"}
        try:
            yaml2ck.convert(a, mechanism_path=f"{d}/mech.inp", sort_elements=c["sort"][0], sort_species=c["sort"][1], **kw)
        except Exception as e:
            return rec.fail("writes", f"{type(e).__name__} {str(e)[:500]}")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            try:
                ck2yaml.convert(f"{d}/mech.inp", thermo_file=kw.get("thermo_path"), transport_file=kw.get("transport_path"),
                                out_name=f"{d}/out.yaml", quiet=True)
            except Exception as e:
                return rec.fail("converts", f"{type(e).__name__} {str(e)[:600]}")
        try:
            b = ct.Solution(f"{d}/out.yaml")
        except ct.CanteraError as e:
            return rec.fail("loads", str(e)[-700:])
    for r in c["yaml"]["reactions"]:
        rec.label(r.get("type", "elementary"))
        if "default-efficiency" in r:
            rec.label("default-efficiency")
    if c["sort"][1]:
        key = (lambda i: a.species_names[i]) if c["sort"][1] == "alphabetical" else (lambda i: a.molecular_weights[i])
        k = sorted(range(a.n_species), key=key)
        y["phases"][0]["species"] = [a.species_names[i] for i in k]
        c["X"] = [c["X"][i] for i in k]
    if c["sort"][0]:
        w = {e: a.atomic_weight(e) for e in a.element_names}
        y["phases"][0]["elements"] = sorted(a.element_names, key=None if c["sort"][0] == "alphabetical" else w.get)
    compare(rec, c, load(y), b, 2e-6, True)
    if len(y["reactions"]) >= 2:
        rec.hit()
