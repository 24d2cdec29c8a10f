"""Property-check framework: generated cases, explicit oracles, shrinking, replay.

A check module (checks/*.py) declares sub-checks with @sub.  A sub-check is a function
run(case, rec) over a JSON-able `case` drawn from a Hypothesis strategy.  It reports a
breach with rec.check / rec.close / rec.fail, and marks the case non-trivial with
rec.hit().  Everything a case does must be a function of `case` alone.
"""
import hashlib, json, math, os, sys

class Fail(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"[{sig}] {msg}")
        self.sig, self.msg = sig, msg

class Skip(Exception):
    pass

SUBS = {}

class Sub:
    def __init__(self, prop, name, strategy, run, quick, thorough, shards, floor, rule,
                 tshards, shrink):
        self.__dict__.update(locals())

def sub(prop, name, strategy, quick, thorough=None, shards=1, floor=0.0, rule="",
        tshards=None, shrink=True):
    def deco(f):
        key = (prop, name)
        assert key not in SUBS, key
        SUBS[key] = Sub(prop, name, strategy, f, quick, thorough or quick * 20, shards,
                        floor, rule, tshards or max(shards, 4), shrink)
        return f
    return deco

class Rec:
    """Records one case."""
    def __init__(self, known=()):
        self.nontrivial = False
        self.labels = []
        self.known = set(known)     # signatures of recorded findings
        self.known_hits = []
        self.skipped = None

    def hit(self, label=None):
        self.nontrivial = True
        if label:
            self.labels.append(label)

    def label(self, l):
        self.labels.append(str(l))

    def skip(self, why):
        self.skipped = why
        raise Skip(why)

    def fail(self, sig, msg):
        if sig in self.known:
            self.known_hits.append(sig)
            return
        raise Fail(sig, msg)

    def check(self, sig, cond, msg=""):
        if not cond:
            self.fail(sig, msg() if callable(msg) else str(msg))

    def close(self, sig, a, b, rtol=1e-9, atol=0.0, msg=""):
        """a and b (scalars or sequences) agree within rtol*max(|a|,|b|)+atol."""
        try:
            a = float(a); b = float(b)
        except (TypeError, ValueError):
            import numpy as np
            aa = np.asarray(a, float); bb = np.asarray(b, float)
            if aa.shape != bb.shape:
                if bb.ndim == 0 or aa.ndim == 0:
                    aa, bb = np.broadcast_arrays(aa, bb)
                else:
                    return self.fail(sig, f"{msg}: shapes {aa.shape} and {bb.shape}")
            rt = np.broadcast_to(np.asarray(rtol, float), aa.shape)
            at = np.broadcast_to(np.asarray(atol, float), aa.shape)
            with np.errstate(all="ignore"):
                ok = (np.abs(aa - bb) <= rt * np.maximum(np.abs(aa), np.abs(bb)) + at) \
                    | (aa == bb) | (np.isnan(aa) & np.isnan(bb))
            if not ok.all():
                i = tuple(int(x) for x in np.argwhere(~ok)[0])
                self.fail(sig, f"{msg}: element {i}: {aa[i]!r} != {bb[i]!r} "
                               f"(diff {aa[i]-bb[i]:.3e}, rtol {rt[i]:.1e}, atol {at[i]:.1e})")
            return
        if a == b or (a != a and b != b):
            return
        if not abs(a - b) <= rtol * max(abs(a), abs(b)) + atol:
            self.fail(sig, f"{msg}: {a!r} != {b!r} (diff {float(a-b):.3e}, rtol {float(rtol):.1e}, atol {float(atol):.1e})")


def jdump(x):
    return json.dumps(x, sort_keys=True, default=_default)

def _default(o):
    if hasattr(o, "item"):
        return o.item()
    if hasattr(o, "tolist"):
        return o.tolist()
    raise TypeError(type(o))

def chash(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
