"""Generated chemical systems for the equilibrium checks: subsets of the NASA gas and
condensed databases over a few elements, and the Karush-Kuhn-Tucker test of equilibrium."""
import functools
import numpy as np
from hypothesis import strategies as st
import cantera as ct
import gen
from gen import uni, logu, fractions

EL = ["H", "O", "C", "N", "S", "Cl", "F", "Si", "Ar", "Na", "Al", "K"]
RARE = ("Jet-A",)

@functools.lru_cache(None)
def table(file):
    out = {}
    for s in ct.Species.list_from_file(file):
        out[s.name] = s
    return out

@functools.lru_cache(None)
def over(file, els):
    els = set(els)
    return sorted(n for n, s in table(file).items() if set(s.composition) <= els and not n.startswith(RARE))

@st.composite
def species(draw, nmax=14, ions=True):
    """Names of gas species over 1..4 elements: always more species than elements."""
    k = draw(st.integers(1, 4))
    els = draw(st.lists(st.sampled_from(EL[:8] if k < 3 else EL), min_size=k, max_size=k, unique=True))
    e = tuple(sorted(els)) + (("E",) if ions and draw(st.integers(0, 5)) == 0 else ())
    names = over("nasa_gas.yaml", e)
    must = []
    for x in els:         # at least one species for every element
        c = [n for n in names if x in table("nasa_gas.yaml")[n].composition]
        must.append(draw(st.sampled_from(c)))
    if "E" in e:
        must.append("Electron" if "Electron" in names else names[0])
    n = draw(st.integers(2, nmax))
    more = draw(st.lists(st.sampled_from(names), min_size=min(n, len(names)), max_size=min(n, len(names)), unique=True))
    out = []
    for x in must + more:
        if x not in out:
            out.append(x)
    return out, e

def gas(names, name="gas"):
    t = table("nasa_gas.yaml")
    return ct.Solution(thermo="ideal-gas", kinetics="none", species=[t[n] for n in names], name=name)

def formula(phase):
    return np.array([[phase.n_atoms(k, m) for m in range(phase.n_elements)] for k in range(phase.n_species)], float)

def potentials(A, mu, n, floor=1e-12):
    """Least-squares element potentials from the species present (n: moles)."""
    x = n / n.sum()
    w = np.where(x > floor, np.sqrt(np.clip(x, 1e-6, 1)), 0.0)
    lam, *_ = np.linalg.lstsq(A * w[:, None], mu * w, rcond=1e-10)
    return lam
