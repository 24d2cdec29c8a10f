"""P14: a mixture of phases brought to equilibrium has the least Gibbs energy, and its
accounting follows its phases.
Oracle: Karush-Kuhn-Tucker conditions over all phases, absent ones included (no phase left out
would form spontaneously), elements, and the properties held constant; for the accounting, direct
sums over the phases.  Non-trivial: a condensed phase takes part."""
import json
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import gen, eqgen
from gen import uni, logu, fractions
R = ct.gas_constant

@st.composite
def system(draw, T=None, nmax=10):
    k = draw(st.integers(1, 3))
    els = draw(st.lists(st.sampled_from(["C", "H", "O", "N", "S", "Si", "Al", "Na", "Cl", "K", "F", "B", "Fe", "Mg", "Ti"]), min_size=k, max_size=k, unique=True))
    e = tuple(sorted(els))
    tg, tc = eqgen.table("nasa_gas.yaml"), eqgen.table("nasa_condensed.yaml")
    names = eqgen.over("nasa_gas.yaml", e)
    T = draw(uni(300, 2500)) if T is None else T
    cond = [n for n in eqgen.over("nasa_condensed.yaml", e) if tc[n].thermo.min_temp <= T <= tc[n].thermo.max_temp]
    sp = []
    for x in els:
        c = [n for n in names if x in tg[n].composition]
        if c:
            sp.append(draw(st.sampled_from(c)))
    n = draw(st.integers(2, nmax))
    for x in (draw(st.lists(st.sampled_from(names), min_size=min(n, len(names)), max_size=min(n, len(names)), unique=True)) if names else []):
        if x not in sp:
            sp.append(x)
    sp = list(dict.fromkeys(sp))
    m = draw(st.integers(1, 5))
    cs = draw(st.lists(st.sampled_from(cond), min_size=min(m, len(cond)), max_size=min(m, len(cond)), unique=True)) if cond else []
    sol = []
    if len(cs) >= 3 and draw(st.integers(0, 2)) == 0:
        sol, cs = cs[:2], cs[2:]
    rho = [draw(uni(800, 6000, 100)) for _ in cs + sol]
    return {"gas": sp, "cond": cs, "sol": sol, "rho": rho, "T": T}

def phases(c):
    tg, tc = eqgen.table("nasa_gas.yaml"), eqgen.table("nasa_condensed.yaml")
    out = []
    def fix(d):
        d = json.loads(json.dumps(d, default=lambda o: dict(o)))
        return d
    if c["gas"]:
        out.append(eqgen.gas(c["gas"]))
    for i, n in enumerate(c["cond"]):
        d = fix(tc[n].input_data); d["equation-of-state"] = {"model": "constant-volume", "density": c["rho"][i]}
        out.append(ct.Solution(yaml=json.dumps({"phases": [{"name": f"c{i}", "thermo": "fixed-stoichiometry", "species": [n]}], "species": [d]})))
    if c["sol"]:
        sps = []
        for i, n in enumerate(c["sol"]):
            d = fix(tc[n].input_data); d["equation-of-state"] = {"model": "constant-volume", "density": c["rho"][len(c["cond"]) + i]}
            sps.append(d)
        out.append(ct.Solution(yaml=json.dumps({"phases": [{"name": "sol", "thermo": "ideal-condensed", "species": c["sol"]}], "species": sps})))
    if c.get("ions"):
        names = ["Q", "A+", "B++", "D-", "E--"][:c["ions"]]
        z = {"Q": 0, "A+": 1, "B++": 2, "D-": -1, "E--": -2}
        sps = []
        for s in names:
            comp = {"Cl": 1}
            if z[s]:
                comp["E"] = -z[s]
            sps.append({"name": s, "composition": comp, "thermo": {"model": "constant-cp", "T0": 298.15, "h0": 1e6 * z[s], "s0": 1e4, "cp0": 3e4}, "equation-of-state": {"model": "constant-volume", "molar-volume": 0.02}})
        ph = {"name": "ions", "thermo": "ideal-condensed", "species": names, "elements": ["E", "Cl"] if c["ions"] % 2 else ["Cl", "E"]}
        out.append(ct.Solution(yaml=json.dumps({"phases": [ph], "species": sps})))
    return out

@st.composite
def equil_case(draw):
    c = draw(system().filter(lambda c: c["gas"]))
    c["P"] = draw(logu(1e3, 1e7))
    ng = len(c["gas"])
    c["Xg"] = draw(fractions(ng)); c["n"] = [draw(logu(1e-2, 10, 100))]
    for i in range(len(c["cond"]) + bool(c["sol"])):
        c["n"].append(draw(st.one_of(st.just(0.0), logu(1e-3, 10, 100))))
    c["Xs"] = draw(fractions(2))
    c["XY"] = draw(st.sampled_from(["TP", "TP", "TP", "HP", "SP"])); c["solver"] = draw(st.sampled_from(["auto", "auto", "vcs", "gibbs"]))
    c["est"] = draw(st.sampled_from([0, 0, 0, -1]))
    return c

def snap(ps, n):
    off = np.concatenate([n[i] * p.X for i, p in enumerate(ps)])
    return off

@sub("P14", "equilibrium", equil_case, quick=1400, thorough=30000, shards=4, tshards=8, floor=0.3,
     rule="a gas with up to 5 condensed phases (NASA database, incl. a two-component ideal solution) over up to 3 elements; TP, HP, SP; all solvers")
def equilibrium(c, rec):
    ps = phases(c)
    ps[0].TPX = c["T"], c["P"], c["Xg"]
    for p in ps[1:]:
        p.TP = c["T"], c["P"]
    if c["sol"]:
        ps[-1].TPX = c["T"], c["P"], c["Xs"]
    m = ct.Mixture(list(zip(ps, c["n"])))
    m.T, m.P = c["T"], c["P"]
    els = [n for n in sorted({e for p in ps for e in p.element_names}, key=m.element_index)]
    A = np.array([[m.n_atoms(k, j) for j in range(m.n_elements)] for k in range(m.n_species)])
    n0 = m.species_moles
    b0 = A.T @ n0
    def tot():
        H = sum(m.phase_moles(i) * p.enthalpy_mole for i, p in enumerate(ps)); S = sum(m.phase_moles(i) * p.entropy_mole for i, p in enumerate(ps))
        C = sum(m.phase_moles(i) * p.cp_mole for i, p in enumerate(ps))
        return H, S, C
    for i, p in enumerate(ps):
        m.phase(i).TP = c["T"], c["P"]
    H0, S0, C0 = tot()
    try:
        m.equilibrate(c["XY"], solver=c["solver"], estimate_equil=c["est"])
    except (ct.CanteraError, RuntimeError, ValueError) as e:
        rec.skip("not converged: " + c["solver"] + " " + c["XY"])
    T, P = m.T, m.P
    if not 200 < T < 5000:
        rec.skip("left the temperature range")
    n = m.species_moles
    sg = c["solver"] + ":" + ("TP" if c["XY"] == "TP" else "XP")
    rec.check(sg + ":positive", (n >= 0).all(), f"{n}")
    tot0 = n0.sum()
    rec.close(sg + ":elements", A.T @ n, b0, 1e-8, 1e-7 * tot0, f"element moles {els}")
    rec.close(sg + ":P", P, c["P"], 1e-9)
    if c["XY"] == "TP":
        rec.close(sg + ":T", T, c["T"], 1e-12)
    else:
        H1, S1, C1 = tot()
        j = 0 if c["XY"] == "HP" else 1
        got, want, tol = [(H1, H0, 1e-5 * abs(C1) * T), (S1, S0, 1e-5 * abs(C1))][j]
        rec.close(sg + ":" + c["XY"][0], got, want, 2e-5, 2 * tol, f"T={T}")
        m.species_moles = n; m.T = T
    # potentials at the state reached
    off = 0; mu = np.zeros(len(n)); x = np.zeros(len(n)); own = []
    for i, p in enumerate(ps):
        K = p.n_species
        N = n[off:off + K].sum()
        X = n[off:off + K] / N if N > 0 else np.ones(K) / K
        p.TPX = T, P, X
        mu[off:off + K] = p.chemical_potentials / (R * T)
        x[off:off + K] = X if N > 1e-14 * tot0 else 0
        own.append((off, K, N))
        off += K
    # stoichiometric phases that are present only in traces may disappear
    present = (n > 1e-8 * tot0) & (x > 1e-8)
    if not present.any():
        return
    w = np.where(present, np.sqrt(np.clip(n / tot0, 1e-6, 1)), 0)
    lam, *_ = np.linalg.lstsq(A * w[:, None], np.where(present, mu, 0) * w, rcond=1e-11)
    rank = np.linalg.matrix_rank(A[present])
    r = mu - A @ lam
    inside = lambda k: np.linalg.matrix_rank(np.vstack([A[present], A[k]])) == rank
    tl = 1e-5
    labels = set()
    for i, (o, K, N) in enumerate(own):
        ph = ps[i]
        if N > 1e-8 * tot0:
            if i:
                labels.add("condensed present")
            for k in range(K):
                if x[o + k] > 1e-9 and n[o + k] > 1e-9 * tot0 and inside(o + k):
                    rec.close(sg + ":potentials", r[o + k], 0, 0, tl * (1 + 0.01 * abs(mu[o + k])) * (1 if x[o + k] > 1e-7 else 100), f"{ph.species_name(k)} in {ph.name}: n={n[o+k]:.3g} of {tot0:.3g}, x={x[o+k]:.3g} T={T} P={P}; others {dict(zip([q.name for q in ps], m.phase_moles()))}")
        else:
            ks = [k for k in range(K) if inside(o + k)]
            if len(ks) < K:
                continue
            out = [k for k in range(K) if not ph.species(k).thermo.min_temp - 1 <= T <= ph.species(k).thermo.max_temp + 1]
            if out:
                continue
            if K == 1:
                rec.check(sg + ":absent phase", r[o] > -1e-4, lambda: f"{ph.species_name(0)} would form: (mu-sum)/RT={r[o]} T={T} P={P} n={dict(zip([q.name for q in ps], m.phase_moles()))}")
                labels.add("condensed absent")
            elif i:
                ph.TPX = T, P, np.ones(K) / K
                mu0 = ph.chemical_potentials / (R * T) - np.log(1.0 / K)
                s = np.exp(A[o:o + K] @ lam - mu0).sum()
                rec.check(sg + ":absent solution", s < 1 + 1e-4, lambda: f"solution would form: {s}")
                labels.add("solution absent")
    if labels:
        rec.hit(" ".join(sorted(labels)) + " " + c["XY"])

# ------------------------------------------------------------------ accounting
@st.composite
def acc_case(draw):
    c = draw(system().filter(lambda c: c["gas"] and (c["cond"] or c["sol"])))
    ops = []
    c["ions"] = draw(st.sampled_from([0, 0, 2, 3, 4, 5]))
    nsp = len(c["gas"]) + len(c["cond"]) + len(c["sol"]) + c["ions"]; nph = 1 + len(c["cond"]) + bool(c["sol"]) + bool(c["ions"])
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["T", "P", "phase_moles", "species_moles", "by_name", "composition"]))
        if k == "T":
            ops.append([k, draw(uni(300, 2500))])
        elif k == "P":
            ops.append([k, draw(logu(1e3, 1e7))])
        elif k == "phase_moles":
            ops.append([k, draw(st.integers(0, nph - 1)), draw(st.one_of(st.just(0.0), logu(1e-6, 100, 100)))])
        elif k == "composition":
            ops.append([k, draw(fractions(len(c["gas"])))])
        else:
            ops.append([k, draw(st.lists(st.one_of(st.just(0.0), logu(1e-6, 100, 100)), min_size=nsp, max_size=nsp))])
    c["ops"] = ops; c["P"] = draw(logu(1e3, 1e7)); c["n"] = [draw(st.one_of(st.just(0.0), logu(1e-3, 10, 100))) for _ in range(nph)]
    c["Xg"] = draw(fractions(len(c["gas"])))
    return c

@sub("P14", "accounting", acc_case, quick=1500, thorough=30000, shards=1, tshards=4, floor=0.8,
     rule="species, phase and element moles, charge and chemical potentials of a Mixture against sums over its phases after a sequence of changes")
def accounting(c, rec):
    ps = phases(c)
    ps[0].TPX = c["T"], c["P"], c["Xg"]
    for p in ps[1:]:
        p.TP = c["T"], c["P"]
    m = ct.Mixture(list(zip(ps, c["n"])))
    m.T, m.P = c["T"], c["P"]
    Ks = [p.n_species for p in ps]; off = np.concatenate([[0], np.cumsum(Ks)])
    X = [p.X.copy() for p in ps]; N = list(c["n"]); T, P = c["T"], c["P"]
    names = []
    for i, p in enumerate(ps):
        names += list(p.species_names)
    rec.check("names", [m.species_name(k) for k in range(m.n_species)] == names, "species names")
    rec.check("counts", m.n_species == sum(Ks) and m.n_phases == len(ps), "")
    for o in c["ops"]:
        if o[0] == "T":
            m.T = T = o[1]
        elif o[0] == "P":
            m.P = P = o[1]
        elif o[0] == "phase_moles":
            m.set_phase_moles(o[1] if len(o) % 2 else ps[o[1]].name, o[2]); N[o[1]] = o[2]
        elif o[0] == "composition":
            m.phase(0).TPX = T, P, o[1]; X[0] = np.array(o[1]) / sum(o[1])
            # setting a phase's composition needs to be told to the mixture by its moles
            m.set_phase_moles(0, N[0])
            nn = np.concatenate([N[i] * X[i] for i in range(len(ps))])
            m.species_moles = nn
            if N[0] <= 0:
                X[0] = m.phase(0).X.copy()
        else:
            nn = np.array(o[1])
            if o[0] == "species_moles":
                m.species_moles = nn
            else:
                d = {}
                s = ", ".join(f"{k}:{v!r}" for k, v in zip(names, o[1]) if v)
                if any(("," in k or ":" in k or " " in k) for k in names) or not s:
                    continue
                m.species_moles = s
            for i in range(len(ps)):
                part = nn[off[i]:off[i + 1]]
                N[i] = part.sum()
                if N[i] > 0:
                    X[i] = part / N[i]
        want = np.concatenate([N[i] * X[i] for i in range(len(ps))])
        rec.close("species_moles", m.species_moles, want, 1e-12, 1e-12 * max(sum(N), 1e-300), f"after {o[0]}")
        rec.close("phase_moles", m.phase_moles(), N, 1e-12, 1e-14 * sum(N), f"after {o[0]}")
        rec.close("T", m.T, T, 1e-14); rec.close("P", m.P, P, 1e-12)
        els = sorted({e for p in ps for e in p.element_names}, key=m.element_index)
        b = {e: sum(N[i] * sum(X[i][k] * p.n_atoms(k, e) for k in range(Ks[i])) for i, p in enumerate(ps) if e in p.element_names) for e in els}
        for e in els:
            rec.close("element_moles", m.element_moles(e), b[e], 1e-10, 1e-12 * sum(N), f"{e} after {o[0]}")
        q = sum(N[i] * (X[i] @ p.charges) for i, p in enumerate(ps)) * ct.faraday
        rec.close("charge", m.charge, q, 1e-9, 1e-9 * ct.faraday * sum(N), f"after {o[0]}")
        for i, p in enumerate(ps):
            rec.close("phase_charge", m.phase_charge(i), N[i] * (X[i] @ p.charges) * ct.faraday, 1e-9, 1e-9 * ct.faraday * sum(N))
            if N[i] > 0:
                mu = m.chemical_potentials[off[i]:off[i + 1]]
                p2 = m.phase(i)
                rec.close("phase state", [p2.T, p2.P], [T, P], 1e-10)
                rec.close("phase X", p2.X, X[i], 1e-12, 1e-13)
                rec.close("potentials", mu, p2.chemical_potentials, 1e-10, 1e-10 * R * T)
        k0 = (len(o) * 7) % m.n_species
        for e in els:
            i = max(j for j in range(len(ps)) if off[j] <= k0)
            rec.close("n_atoms", m.n_atoms(k0, m.element_index(e)), ps[i].n_atoms(int(k0 - off[i]), e) if e in ps[i].element_names else 0)
    rec.hit()
