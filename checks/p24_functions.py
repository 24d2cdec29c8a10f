"""P24: functions of one variable have the values and derivatives of what they were built from.
Oracle: dual numbers carried through the expression tree in Python, without simplification.
Non-trivial: the tree has at least one operation and a finite value."""
import ctypes, math
import numpy as np
from hypothesis import strategies as st
import cantera as ct
from vp import sub
import cxx
from gen import uni, logu

class NoDerivative(Exception): pass

# dual numbers: (value, derivative)
def _basic(t, p, x):
    v, d = x
    if d is None:
        return _basic(t, p, (v, 0.0))[0], None
    if t == "constant": return p[0], 0.0
    if t == "sin": return math.sin(p[0] * v), p[0] * math.cos(p[0] * v) * d
    if t == "cos": return math.cos(p[0] * v), -p[0] * math.sin(p[0] * v) * d
    if t == "exp": return math.exp(p[0] * v), p[0] * math.exp(p[0] * v) * d
    if t == "log": return math.log(p[0] * v), d / v
    if t == "log!": return math.log(p[0] * v), p[0] * d / v
    if t == "pow":
        if v < 0: raise ValueError
        return v ** p[0], (p[0] * v ** (p[0] - 1) * d if p[0] else 0.0)
    if t == "polynomial3":
        r = 0.0; q = 0.0
        for c in p:
            q = q * v + r; r = r * v + c
        return r, q * d
    if t == "Fourier":
        n = len(p) // 2 - 1; a, w, b = p[1:n + 1], p[n + 1], p[n + 2:]
        return p[0] / 2 + sum(a[k] * math.cos((k + 1) * w * v) + b[k] * math.sin((k + 1) * w * v) for k in range(n)), None
    if t == "Gaussian":
        A, t0, fwhm = p
        # half of the peak value at half of the width
        return A * 2.0 ** (-(2 * (v - t0) / fwhm) ** 2), None
    if t == "Arrhenius":
        if v < 0: raise ValueError
        return sum(A * v ** b * math.exp(-E / v) for A, b, E in zip(p[::3], p[1::3], p[2::3])), None
    n = len(p) // 2; ts, fs = p[:n], p[n:]
    if any(abs(v - z) < 1e-9 for z in ts): raise Knot
    if v < ts[0]: return fs[0], 0.0
    if v > ts[-1]: return fs[-1], 0.0
    i = max(k for k in range(n) if ts[k] < v)
    if t == "tabulated-previous": return fs[i], 0.0
    s = (fs[i + 1] - fs[i]) / (ts[i + 1] - ts[i])
    return fs[i] + s * (v - ts[i]), s * d

class Knot(ValueError): pass

def ev(e, x, bug=False):
    k = e[0]
    if k == "b":
        return _basic(e[1] + ("!" if bug and e[1] == "log" else ""), e[2], x)
    if k == "x": return x
    if k in ("m", "n"):
        t, c = e[1], e[2]
        if t == "periodic":
            n = math.floor(x[0] / c)
            if abs(x[0] / c - round(x[0] / c)) < 1e-9: raise ValueError
            return ev(e[3], (x[0] - n * c, x[1]), bug)[0], None
        v, d = ev(e[3], x, bug)
        return (v * c, None if d is None else d * c) if t in ("times-constant", "times") else (v + c, d)
    t = e[1]
    if t == "composite":
        return ev(e[2], ev(e[3], x, bug), bug)
    a, b = ev(e[2], x, bug), ev(e[3], x, bug)
    has = a[1] is not None and b[1] is not None
    if t == "sum": return a[0] + b[0], a[1] + b[1] if has else None
    if t == "diff": return a[0] - b[0], a[1] - b[1] if has else None
    if t == "product": return a[0] * b[0], a[0] * b[1] + a[1] * b[0] if has else None
    return a[0] / b[0], (a[1] * b[0] - a[0] * b[1]) / b[0] ** 2 if has else None

def has(e, f):
    return f(e) or any(has(q, f) for q in e if isinstance(q, (list, tuple)) and q and isinstance(q[0], str))

def depth(e):
    return 0 if e[0] == "b" else 1 + max(depth(q) for q in e if isinstance(q, (list, tuple)) and q and isinstance(q[0], str))

CO = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, -2.0]), uni(-3, 3, 1000))

@st.composite
def basic(draw, derivable=False):
    t = draw(st.sampled_from(["constant", "constant", "sin", "cos", "exp", "exp", "log", "pow", "pow", "pow", "tabulated-linear", "tabulated-previous"] + ([] if derivable else ["polynomial3", "Fourier", "Gaussian", "Arrhenius"])))
    if t == "log": p = [draw(st.one_of(st.just(1.0), logu(0.1, 10)))]
    elif t in ("constant", "pow", "exp", "sin", "cos"): p = [draw(CO)]
    elif t == "polynomial3": p = draw(st.lists(CO, min_size=1, max_size=5))
    elif t == "Fourier":
        n = draw(st.integers(1, 3)); p = [draw(CO) for _ in range(2 * n + 2)]
    elif t == "Gaussian": p = [draw(CO), draw(uni(-1, 3)), draw(logu(0.1, 3))]
    elif t == "Arrhenius": p = [draw(CO) for _ in range(3 * draw(st.integers(1, 3)))]
    else:
        n = draw(st.integers(2, 5))
        ts = [draw(uni(-1, 1))]
        for _ in range(n - 1): ts.append(ts[-1] + draw(uni(0, 1.5)) * (draw(st.integers(0, 5)) > 0))
        p = ts + [draw(CO) for _ in range(n)]
    return ["b", t, p]

@st.composite
def tree(draw, d=3, derivable=False, ops=("c", "s"), share=None):
    share = [] if share is None else share
    k = draw(st.integers(0, 6)) if d else 0
    if k <= 1:
        if share and draw(st.integers(0, 2)) == 0:
            e = draw(st.sampled_from(share))
        else:
            e = draw(basic(derivable)); share.append(e)
        return e
    if k == 2:
        o = draw(st.sampled_from(["m", "n"]) if "c" in ops else st.just("n"))
        t = draw(st.sampled_from((["times-constant", "plus-constant"] + ([] if derivable else ["periodic"])) if o == "m" else ["times", "plus"]))
        c = draw(logu(0.3, 3)) if t == "periodic" else draw(CO)
        e = [o, t, c, draw(tree(d - 1, derivable, ops, share))]
    else:
        o = draw(st.sampled_from(ops))
        t = draw(st.sampled_from(["sum", "diff", "product", "product", "ratio"] + (["composite"] if "c" in ops else [])))
        a, b = draw(tree(d - 1, derivable, ops, share)), draw(tree(d - 1, derivable, ops, share))
        if t == "composite" and o == "s":
            # (powers of powers are merged, which holds for positive arguments only)
            o = "c"
        e = [o, t, a, b]
    if draw(st.booleans()): share.append(e)
    return e

def rpn(e):
    if e[0] == "b": return "b " + e[1] + " " + " ".join(repr(float(q)) for q in e[2]) + "\n"
    if e[0] in ("m", "n"): return rpn(e[3]) + f"{e[0]} {e[1]} {float(e[2])!r}\n"
    return rpn(e[2]) + rpn(e[3]) + f"{e[0]} {e[1]}\n"

def run(prog, xs):
    x, xp = cxx.arr(xs); out, op = cxx.arr(np.zeros(len(xs)))
    cxx.ok(cxx.lib().vp_func(prog.encode(), len(xs), xp, op))
    return out

XS = st.lists(st.one_of(uni(0.01, 4, 10000), uni(-4, 9, 10000)), min_size=3, max_size=6)

@st.composite
def f_case(draw):
    dv = draw(st.booleans())
    return {"e": draw(tree(draw(st.integers(1, 4)), dv)), "xs": draw(XS), "d": dv}

def mag(e, x):
    """Largest intermediate value: the scale of round-off."""
    m = 0.0
    def f(q, x):
        nonlocal m
        v = ev(q, x)
        m = max(m, abs(v[0]), abs(v[1] or 0))
        if q[0] in ("m", "n"):
            f(q[3], (x[0] - math.floor(x[0] / q[2]) * q[2], 1.0) if q[1] == "periodic" else x); m = max(m, abs(q[2]))
        elif q[0] in ("c", "s"):
            if q[1] == "composite":
                f(q[3], x); f(q[2], ev(q[3], x))
            else:
                f(q[2], x); f(q[3], x)
                if q[1] == "ratio": m = max(m, abs(1 / ev(q[3], x)[0]) ** 2)
        elif q[0] == "b":
            m = max(m, max(abs(z) for z in q[2]))
    f(e, x)
    return m

def points(e, xs, bug=False):
    out = []
    for x in xs:
        try:
            v = ev(e, (x, 1.0), bug); g = mag(e, (x, 1.0))
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        if g < 1e5 and np.isfinite(v[0]) and (v[1] is None or np.isfinite(v[1])):
            out.append((x, v, g))
    return out

@sub("P24", "functors", f_case, quick=12000, thorough=300000, shards=2, tshards=8, floor=0.5,
     rule="expression trees of basic, tabulated and compound functors built with and without simplification in C++, values and derivatives")
def functors(c, rec):
    e = c["e"]; pts = points(e, c["xs"])
    if not pts: rec.skip("no regular point")
    prog = rpn(e); xs = [q[0] for q in pts]
    zero = has(e, lambda q: q[0] in ("c", "s") and q[1] == "ratio" and q[3][0] == "b" and q[3][1] == "constant" and q[3][2][0] == 0)
    try:
        got = run(prog, xs)
    except cxx.Error as x:
        if "Division by zero" in str(x): rec.skip("division by zero")
        raise
    want = np.array([q[1][0] for q in pts]); sc = np.array([q[2] for q in pts])
    rec.close("value", got, want, 1e-10, 1e-12 * sc ** 2 + 1e-13, f"{prog!r} at {xs}")
    if depth(e) and pts: rec.hit("value")
    if not c["d"]: return
    # the second derivative as well, where the first is right
    try:
        got = run(prog + "d x\n", xs)
    except cxx.Error as x:
        if "Division by zero" in str(x): rec.skip("division by zero")
        raise
    want = np.array([q[1][1] for q in pts])
    # a functor that is not differentiable at a point of a table
    tol = 1e-10 * np.abs(want) + 1e-11 * sc ** 2 + 1e-12
    if not (np.abs(got - want) <= tol).all() and has(e, lambda q: q[0] == "b" and q[1] == "log" and q[2][0] != 1):
        alt = np.array([ev(e, (x, 1.0), True)[1] for x in xs])
        if (np.abs(got - alt) <= 1e-9 * np.abs(alt) + 1e-10 * sc ** 2 * max(10, 1)).all():
            return rec.fail("derivative of log(a x)", f"{prog!r} at {xs}: {got} != {want}")
    rec.close("derivative", got, want, 1e-10, 1e-11 * sc ** 2 + 1e-12, f"{prog!r} at {xs}")
    rec.hit("derivative")

@st.composite
def tab_case(draw):
    n = draw(st.integers(2, 7)); ts = [draw(uni(-2, 2))]
    for _ in range(n - 1): ts.append(round(ts[-1] + draw(uni(0.001, 2)), 6))
    fs = [draw(CO) for _ in range(n)]
    return {"t": ts, "f": fs, "x": draw(st.lists(uni(-5, 12), min_size=1, max_size=5)), "method": draw(st.sampled_from(["linear", "previous"])), "np": draw(st.booleans())}

@sub("P24", "tables", tab_case, quick=3000, thorough=60000, shards=1, tshards=4, floor=0.9,
     rule="tabulated functions at, between and outside their points, from lists and arrays")
def tables(c, rec):
    ts, fs = c["t"], c["f"]
    mk = np.array if c["np"] else list
    f = ct.Tabulated1(mk(ts), mk(fs), method=c["method"])
    for x in c["x"] + ts + [ts[0] - 1, ts[-1] + 1] + [(a + b) / 2 for a, b in zip(ts, ts[1:])]:
        if x <= ts[0]: w = fs[0]
        elif x >= ts[-1]: w = fs[-1]
        elif c["method"] == "previous": w = fs[max(i for i in range(len(ts)) if ts[i] <= x)]
        else: w = float(np.interp(x, ts, fs))
        rec.close(c["method"], f(x), w, 1e-12, 1e-12 * max(map(abs, fs)), f"at {x}")
    bad = ts[:]; bad[0], bad[-1] = bad[-1], bad[0]
    for a, b in ((bad, fs), (ts, fs[:-1])):
        try:
            ct.Tabulated1(a, b, method=c["method"])
        except ct.CanteraError:
            continue
        rec.fail("refusal", f"{a} {b} accepted")
    rec.hit(c["method"])

@st.composite
def op_case(draw):
    return {"e": draw(tree(draw(st.integers(1, 4)), False, ("s",))), "xs": draw(XS), "call": draw(st.integers(0, 3)), "raw": draw(st.integers(0, 7))}

def pyfunc(e, c):
    if e[0] == "b":
        t, p = e[1], e[2]
        if c["call"] == 1:
            def g(x):
                try: return _basic(t, p, (x, 0.0))[0]
                except ValueError: return float("nan")
            return ct.Func1(g)
        if t == "constant": return [ct.Func1(p[0]), ct.Func1("constant", p[0]), ct.Func1([p[0]]), ct.Func1(np.array(p[0]))][c["raw"] % 4]
        if t.startswith("tab"):
            n = len(p) // 2
            return ct.Func1(t, p[:n], p[n:]) if c["raw"] % 2 else ct.Tabulated1(p[:n], p[n:], method=t[10:])
        if t in ("sin", "cos", "exp", "log", "pow") and len(p) == 1: return ct.Func1(t, p[0])
        return ct.Func1(t, p)
    if e[0] == "n":
        f = pyfunc(e[3], c)
        k = e[2]
        if e[1] == "times": return f * k if c["raw"] % 2 else k * f
        if c["raw"] & 2: return f - (-k)
        return f + k if c["raw"] % 2 else k + f
    a, b = pyfunc(e[2], c), pyfunc(e[3], c)
    if c["call"] == 2 and e[2][0] == "b" and e[2][1] == "constant": a = e[2][2][0]
    elif c["call"] == 2 and e[3][0] == "b" and e[3][1] == "constant": b = e[3][2][0]
    elif c["call"] == 3 and e[3][0] == "b":
        q = e[3]
        def b(x):
            try: return _basic(q[1], q[2], (x, 0.0))[0]
            except ValueError: return float("nan")
    return {"sum": lambda: a + b, "diff": lambda: a - b, "product": lambda: a * b, "ratio": lambda: a / b}[e[1]]()

@sub("P24", "operators", op_case, quick=4000, thorough=100000, shards=1, tshards=8, floor=0.5,
     rule="expressions of functors, numbers and Python callables with the operators of Python")
def operators(c, rec):
    e = c["e"]; pts = points(e, c["xs"])
    if not pts: rec.skip("no regular point")
    try:
        f = pyfunc(e, c)
    except ct.CanteraError as x:
        if "Division by zero" in str(x): rec.skip("division by zero")
        raise
    got = np.array([f(q[0]) for q in pts]); want = np.array([q[1][0] for q in pts]); sc = np.array([q[2] for q in pts])
    rec.close("operators", got, want, 1e-10, 1e-12 * sc ** 2 + 1e-13, f"{rpn(e)!r}")
    if depth(e): rec.hit("callables" if c["call"] in (1, 3) else "functors")
