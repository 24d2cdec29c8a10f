"""Reactor networks for the checks: specification strategy, construction, and an
independent evaluation of the documented governing equations."""
import json, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
import gen, mechgen
from gen import uni, logu, fractions, sig

KINDS = ["Reactor", "IdealGasReactor", "ConstPressureReactor", "IdealGasConstPressureReactor",
         "MoleReactor", "IdealGasMoleReactor", "ConstPressureMoleReactor", "IdealGasConstPressureMoleReactor"]
SIGMA = 5.670374419e-8
LIB = ["h2o2.yaml"]

def func(spec):
    if spec is None:
        return None
    k, a, b, w = spec
    if k == "const":
        return a
    if k == "sin":
        return lambda t: a + b * math.sin(w * t)
    if k == "exp":
        return lambda t: a + b * math.exp(-w * t)
    if k == "lin":
        return lambda t: a + b * t * w
    raise ValueError(k)

def fval(spec, t):
    f = func(spec)
    return f if isinstance(f, (int, float)) else f(t)

@st.composite
def tfunc(draw, a, b, w=10.0):
    k = draw(st.sampled_from(["const", "sin", "exp", "lin"]))
    return [k, draw(a), draw(b), draw(uni(0.1, w, 1000))]

@st.composite
def state(draw, n, Tlo=300, Thi=2500, Plo=2e4, Phi=3e6):
    return {"T": draw(uni(Tlo, Thi)), "P": draw(logu(Plo, Phi)), "X": draw(fractions(n))}

@st.composite
def network(draw, nmax=3, kinds=KINDS, surfaces=True, model=None, types=mechgen.TYPES, mech=None, connectors=True,
            Tlo=300, Thi=2500, reservoirs=True, areas=None):
    surf = surfaces and draw(st.integers(0, 2)) == 0
    if mech:
        m = draw(mech); surf = False
    elif surf:
        m = draw(mechgen.surf_mech(kinds=("surface",), gas_reactions=True, nmin=1, nmax=5))
        m = {"yaml": m["yaml"], "n": m["ng"], "ns": m["ns"]}
    else:
        model = model or draw(st.sampled_from(["ideal-gas", "ideal-gas", "ideal-gas", "Redlich-Kwong"]))
        m = draw(mechgen.gas_mech(nmin=1, nmax=6, with_transport=None, model=model, types=types))
    real = model == "Redlich-Kwong"
    ks = [k for k in kinds if not (real and k.startswith("IdealGas"))]
    nr = draw(st.integers(1, nmax)); nres = draw(st.integers(0, 2)) if reservoirs else 0
    stt = state(m["n"], Tlo=max(Tlo, 600) if real else Tlo, Thi=Thi)
    rs = []
    for i in range(nr):
        r = {"kind": draw(st.sampled_from(ks)), "s": draw(stt), "V": draw(logu(1e-4, 10)),
             "energy": draw(st.sampled_from([True, True, True, False])), "chem": draw(st.sampled_from([True, True, True, False])), "surfs": []}
        if surf:
            for _ in range(draw(st.integers(0, 2)) if i else draw(st.integers(1, 2))):
                r["surfs"].append({"A": draw(areas or logu(1e-4, 10)), "cov": draw(fractions(m["ns"]))})
        rs.append(r)
    res = [{"s": draw(stt), "alt": draw(st.integers(0, 2))} for _ in range(nres)]
    node = st.integers(0, nr + nres - 1)
    walls, flows = [], []
    if connectors:
        for _ in range(draw(st.integers(0, 3))):
            a, b = draw(node), draw(node)
            if a == b or (a >= nr and b >= nr):
                continue
            walls.append({"l": a, "r": b, "A": draw(logu(1e-3, 5)), "K": draw(st.sampled_from([0.0, 1e-6, 1e-5])),
                          "U": draw(st.sampled_from([0.0, 10.0, 500.0])), "e": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])),
                          "Q": draw(st.one_of(st.none(), tfunc(uni(-1e4, 1e4), uni(-1e4, 1e4)))),
                          "v": draw(st.one_of(st.none(), tfunc(uni(-0.01, 0.01), uni(-0.01, 0.01))))})
        for _ in range(draw(st.integers(0, 4))):
            a, b = draw(node), draw(node)
            if a == b or (a >= nr and b >= nr):
                continue
            kind = draw(st.sampled_from(["mfc", "mfc", "valve", "pc"]))
            f = {"kind": kind, "u": a, "d": b, "c": draw(logu(1e-4, 1)) if kind == "mfc" else draw(logu(1e-9, 1e-5)),
                 "t": None, "p": None}
            if kind == "pc":
                j = [i for i, x in enumerate(flows) if x["kind"] != "pc"]
                if not j:
                    f["kind"] = "valve"
                else:
                    f["primary"] = draw(st.sampled_from(j))
            if f["kind"] != "pc" and draw(st.booleans()):
                f["t"] = draw(tfunc(uni(0, 2), uni(-2, 2)))
            if f["kind"] != "mfc" and draw(st.integers(0, 2)) == 0:
                f["p"] = draw(st.sampled_from([["lin", 0.0, 1.0, 0.5], ["lin", 1e4, 1.0, 0.2], ["sin", 100.0, 200.0, 1e-4]]))
            flows.append(f)
    return {"m": m["yaml"], "n": m["n"], "surf": surf, "R": rs, "res": res, "walls": walls, "flows": flows,
            "order": draw(st.permutations(list(range(nr))))}

def gas_of(m, src=None):
    if isinstance(m, str):
        return ct.Solution(m)
    return ct.Solution(yaml=src or json.dumps(m), name="gas")

def alt_mech(m, alt):
    """The reservoir's phase: the same species listed in another order, or with some removed."""
    if not alt or isinstance(m, str):
        return m
    y = json.loads(json.dumps(m))
    y = {"phases": [p for p in y["phases"] if p["name"] == "gas"], "species": y["species"]}
    p = y["phases"][0]
    p["species"] = list(reversed(p["species"]))
    if alt == 2 and len(p["species"]) > 2:
        p["species"] = p["species"][1:]
    for k in ("kinetics", "reactions"):
        p.pop(k, None)
    return y

class Net:
    """Builds the network of a case.  base: 'plain' or 'ext' (Extensible classes with
    recording of every evaluation)."""
    def __init__(self, c, rec, ext=False, watch=None, kinds=None):
        self.c, self.src = c, json.dumps(c["m"])
        self.obj, self.gases, self.ifaces = [], [], []
        for i, r in enumerate(c["R"]):
            g = gas_of(c["m"], self.src)
            g.TPX = r["s"]["T"], r["s"]["P"], r["s"]["X"]
            kind = kinds[i] if kinds else r["kind"]
            en = "on" if r["energy"] else "off"
            if ext:
                o = make_ext(kind, watch)(g, energy=en, name=f"r{i}", volume=r["V"])
                o._i = i
            else:
                o = getattr(ct, kind)(g, energy=en, name=f"r{i}", volume=r["V"])
            o.chemistry_enabled = r["chem"]
            self.obj.append(o); self.gases.append(g)
            fs = []
            for s in r["surfs"]:
                f = ct.Interface(yaml=self.src, name="surf", adjacent=[g])
                rs = ct.ReactorSurface(f, o, A=s["A"])
                rs.coverages = s["cov"]
                fs.append((f, rs))
            self.ifaces.append(fs)
        for i, r in enumerate(c["res"]):
            m = alt_mech(c["m"], r["alt"])
            g = gas_of(m)
            g0 = self.gases[0]
            X = dict(zip(g0.species_names, r["s"]["X"]))
            x = np.array([X[s] for s in g.species_names])
            if x.sum() <= 0:
                x[:] = 1.0
            g.TPX = r["s"]["T"], r["s"]["P"], x
            self.obj.append(ct.Reservoir(g, name=f"res{i}")); self.gases.append(g)
        self.walls = []
        for w in c["walls"]:
            kw = {k: v for k, v in (("Q", func(w["Q"])), ("velocity", func(w["v"]))) if v is not None}
            W = ct.Wall(self.obj[w["l"]], self.obj[w["r"]], A=w["A"], K=w["K"], U=w["U"], **kw)
            W.emissivity = w["e"]
            self.walls.append(W)
        self.flows = []
        for f in c["flows"]:
            u, d = self.obj[f["u"]], self.obj[f["d"]]
            if f["kind"] == "mfc":
                o = ct.MassFlowController(u, d, mdot=f["c"])
            elif f["kind"] == "valve":
                o = ct.Valve(u, d, K=f["c"])
            else:
                o = ct.PressureController(u, d, primary=self.flows[f["primary"]], K=f["c"])
            if f["t"]:
                o.time_function = func(f["t"])
            if f["p"]:
                o.pressure_function = func(f["p"])
            self.flows.append(o)
        self.net = ct.ReactorNet([self.obj[i] for i in c["order"]])

_ext = {}
def make_ext(kind, watch):
    if kind not in _ext:
        base = getattr(ct, "Extensible" + kind)
        class E(base):
            _watch = None
            def after_update_state(self, y):
                w = self._watch
                if w is not None:
                    w.state(self._i, np.array(y))
            def after_eval(self, t, LHS, RHS):
                w = self._watch
                if w is not None:
                    w.eval(self._i, t, np.array(LHS), np.array(RHS))
        E.__name__ = "E" + kind
        _ext[kind] = E
    return _ext[kind]

class Model:
    """Independent evaluation of the governing equations of the network of case c."""
    def __init__(self, c):
        self.c = c; src = json.dumps(c["m"])
        self.g, self.f = [], []
        for r in c["R"]:
            g = gas_of(c["m"], src); g.TPX = r["s"]["T"], r["s"]["P"], r["s"]["X"]
            self.g.append(g)
            self.f.append([ct.Interface(yaml=src, name="surf", adjacent=[g]) for s in r["surfs"]])
        for r in c["res"]:
            g = gas_of(alt_mech(c["m"], r["alt"]))
            X = dict(zip(self.g[0].species_names, r["s"]["X"]))
            x = np.array([X[s] for s in g.species_names])
            if x.sum() <= 0:
                x[:] = 1.0
            g.TPX = r["s"]["T"], r["s"]["P"], x
            self.g.append(g)
        self.P0 = [g.P for g in self.g]; self.T0 = [g.T for g in self.g]
        self.V = [r["V"] for r in c["R"]]; self.m = [0.0] * len(c["R"])

    def layout(self, i):
        k = self.c["R"][i]["kind"]
        mole, cp, ideal = "Mole" in k, "ConstPressure" in k, k.startswith("IdealGas")
        return mole, cp, ideal

    def set(self, i, y):
        """Sets the phase of reactor i from its state vector; returns False if unphysical."""
        mole, cp, ideal = self.layout(i)
        g = self.g[i]; K = g.n_species; W = g.molecular_weights
        e = self.c["R"][i]["energy"]
        y = np.asarray(y)
        if mole:
            s0 = 1 if cp else 2
            n = y[s0:s0 + K]; m = n @ W; Y = n * W / m; E = y[0]; V = None if cp else y[1]
        else:
            s0 = 2 if cp else 3
            m = y[0]; Y = y[s0:s0 + K]; E = y[1] if cp else y[2]; V = None if cp else y[1]
        if not m > 0 or (V is not None and not V > 0):
            return False
        g.set_unnormalized_mass_fractions(Y)
        P = self.P0[i]
        T = self.T0[i] if not e else None
        if ideal:
            T = E            # the state variable is the temperature, also with the energy equation off
        if T is None:
            T = g.T
            for it in range(100):
                if cp:
                    g.TP = T, P
                    d = (E / m - g.enthalpy_mass) / g.cp_mass
                else:
                    g.TD = T, m / V
                    d = (E / m - g.int_energy_mass) / g.cv_mass
                d = max(min(d, 0.3 * T), -0.3 * T)
                T += d
                if abs(d) < 1e-13 * T:
                    break
            else:
                return False
        if cp:
            g.TP = T, P
            V = m / g.density
        else:
            g.TD = T, m / V
        self.m[i], self.V[i] = m, V
        self.cov = getattr(self, "cov", {})
        loc = s0 + K
        for j, f in enumerate(self.f[i]):
            ns = f.n_species
            z = y[loc:loc + ns]
            if mole:
                z = z * f_sizes(f) / (self.c["R"][i]["surfs"][j]["A"] * f.site_density)
            self.cov[i, j] = z
            loc += ns
            if not (abs(z.sum() - 1) < 0.1 and z.min() > -0.1):
                return False
        Y = g.Y
        return bool(100 < g.T < 8000 and g.P > 0 and abs(Y.sum() - 1) < 0.1 and Y.min() > -0.1 and g.cv_mass > 0)

    def wall_rates(self, t):
        out = []
        for w in self.c["walls"]:
            a, b = self.g[w["l"]], self.g[w["r"]]
            v = w["K"] * w["A"] * (a.P - b.P) + (w["A"] * fval(w["v"], t) if w["v"] else 0)
            q = w["A"] * w["U"] * (a.T - b.T) + w["e"] * w["A"] * SIGMA * (a.T**4 - b.T**4) + (w["A"] * fval(w["Q"], t) if w["Q"] else 0)
            out.append((v, q, abs(w["A"] * w["U"]) * (a.T + b.T) + w["e"] * w["A"] * SIGMA * (a.T**4 + b.T**4), w["K"] * w["A"] * (abs(a.P) + abs(b.P))))
        return out

    def flow_rates(self, t):
        out = []
        for f in self.c["flows"]:
            a, b = self.g[f["u"]], self.g[f["d"]]
            tf = fval(f["t"], t) if f["t"] else 1.0
            dp = a.P - b.P
            pf = fval(f["p"], dp) if f["p"] else dp
            if f["kind"] == "mfc":
                md = f["c"] * tf; s = 0
            elif f["kind"] == "valve":
                md = f["c"] * tf * pf; s = f["c"] * abs(tf) * (a.P + b.P)
            else:
                md = f["c"] * pf + out[f["primary"]][0]; s = f["c"] * (a.P + b.P) + out[f["primary"]][1]
            out.append((max(md, 0.0), s))
        return out

    def rates(self, i, t):
        """dict of totals for reactor i: dm_k (species mass), dm, dV, dE, dsurf (per surface),
        with magnitudes."""
        c = self.c; r = c["R"][i]; g = self.g[i]; W = g.molecular_weights; K = g.n_species
        mole, cp, ideal = self.layout(i)
        V = self.V[i]
        dk = np.zeros(K); mk = np.zeros(K)
        if r["chem"] and g.n_reactions:
            w = g.net_production_rates
            dk += V * w * W; mk += V * W * gross(g)
        surf = []
        sk = np.zeros(K); smag = np.zeros(K)
        for j, f in enumerate(self.f[i]):
            f.set_unnormalized_coverages(self.cov[i, j]); f.TP = g.T, f.P
            A = r["surfs"][j]["A"]
            sd = f.net_production_rates; sm = gross(f)
            gi = f.kinetics_species_index(g.species_names[0]); si = f.kinetics_species_index(f.species_names[0])
            sk += A * sd[gi:gi + K] * W; smag += A * sm[gi:gi + K] * W
            if mole:
                surf.append((A * sd[si:si + f.n_species], A * sm[si:si + f.n_species]))
            else:
                z = f_sizes(f) / f.site_density
                zm = sm[si:si + f.n_species] * z
                zm[0] = zm.sum()        # the first species closes the site balance
                surf.append((sd[si:si + f.n_species] * z, zm))
        dk += sk; mk += smag
        dm = sk.sum(); mm = smag.sum()
        dV = 0.0; Q = 0.0; Vm = 0.0; Em = 0.0
        for w, (v, q, qm, vm) in zip(c["walls"], self.wall_rates(t)):
            for side, sgn in (("l", 1), ("r", -1)):
                if w[side] == i:
                    dV += sgn * v; Q -= sgn * q; Vm += abs(v) + vm; Em += abs(q) + qm
        E = Q - (0 if cp else g.P * dV)
        Em += 0 if cp else abs(g.P) * Vm
        h = g.enthalpy_mass; habs = abs(h) + g.cp_mass * g.T
        for f, (md, ms) in zip(c["flows"], self.flow_rates(t)):
            if f["u"] == i:
                Y = g.Y
                dm -= md; mm += md + ms; dk -= md * Y; mk += (md + ms) * abs(Y); E -= md * h; Em += (md + ms) * habs
            if f["d"] == i:
                s = self.g[f["u"]]
                Y = np.zeros(K)
                for n, yy in zip(s.species_names, s.Y):
                    if n in g.species_names:
                        Y[g.species_index(n)] = yy
                dm += md; mm += md + ms; dk += md * Y; mk += (md + ms) * abs(Y)
                E += md * s.enthalpy_mass; Em += (md + ms) * (abs(s.enthalpy_mass) + s.cp_mass * s.T)
        if not r["energy"]:
            E = 0.0
        return {"dk": dk, "mk": mk, "dm": dm, "mm": mm, "dV": dV, "Vm": Vm, "E": E, "Em": Em, "surf": surf}

    def ydot(self, i, t):
        """(derivative, magnitude) of the state vector of reactor i."""
        mole, cp, ideal = self.layout(i)
        g = self.g[i]; W = g.molecular_weights; e = self.c["R"][i]["energy"]
        R = self.rates(i, t)
        E, Em = R["E"], R["Em"]
        m = self.m[i]
        if ideal:
            part = g.partial_molar_enthalpies if cp else g.partial_molar_int_energies
            cc = (g.cp_mass if cp else g.cv_mass) * m
            dn = R["dk"] / W
            dT = (E - part @ dn) / cc if e else 0.0
            Em = (Em + np.abs(part) @ (R["mk"] / W)) / abs(cc)
            E = dT
        if not e:
            E, Em = 0.0, 0.0
        if mole:
            y = [E] + ([] if cp else [R["dV"]]) + list(R["dk"] / W)
            s = [Em] + ([] if cp else [R["Vm"]]) + list(R["mk"] / W)
        else:
            Y = g.Y
            y = [R["dm"]] + ([] if cp else [R["dV"]]) + [E] + list((R["dk"] - Y * R["dm"]) / m)
            s = [R["mm"]] + ([] if cp else [R["Vm"]]) + [Em] + list((R["mk"] + abs(Y) * R["mm"]) / m)
        for a, b in R["surf"]:
            y += list(a); s += list(b)
        return np.array(y), np.array(s)

def gross(k):
    return (k.reactant_stoich_coeffs + k.product_stoich_coeffs) @ (np.abs(k.forward_rates_of_progress) + np.abs(k.reverse_rates_of_progress))

def f_sizes(f):
    return np.array([f.species(k).input_data.get("sites", 1) for k in range(f.n_species)], float)
