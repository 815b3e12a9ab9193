"""Specification functions shared by the contracts."""
import z3
from vc.engine import *

def bit(x, k):
    """k-th bit of x as Bool; k int or term of the same width"""
    if isinstance(k, int): return z3.Extract(k, k, x) == 1
    return z3.Extract(0, 0, z3.LShR(x, k)) == 1
def popcount(x, w=64):
    """number of ones, as a w-bit term: the definition (sum of the bits)"""
    xs = [z3.Extract(k, k, x) for k in range(x.size())]; wd = 1
    while len(xs) > 1:      # balanced tree of adders, each wide enough not to overflow
        wd += 1
        xs = [z3.ZeroExt(1, xs[i]) + z3.ZeroExt(1, xs[i + 1]) if i + 1 < len(xs) else z3.ZeroExt(1, xs[i]) for i in range(0, len(xs), 2)]
    return z3.ZeroExt(w - wd, xs[0]) if w > wd else z3.Extract(w - 1, 0, xs[0])
def bits_sum(bs, w=64):
    xs = [z3.If(b, bv(1, 1), bv(0, 1)) for b in bs]; wd = 1
    while len(xs) > 1:
        wd += 1
        xs = [z3.ZeroExt(1, xs[i]) + z3.ZeroExt(1, xs[i + 1]) if i + 1 < len(xs) else z3.ZeroExt(1, xs[i]) for i in range(0, len(xs), 2)]
    return z3.ZeroExt(w - wd, xs[0])
def mask(k, w=64):
    """the k low bits set, 0<=k<=w"""
    if isinstance(k, int): return bv((1 << k) - 1, w)
    return z3.If(z3.UGE(k, bv(w, w)), bv((1 << w) - 1, w), (bv(1, w) << k) - 1)
def zx(x, w=64): return x if x.size() == w else z3.ZeroExt(w - x.size(), x)
def sx(x, w=64): return x if x.size() == w else z3.SignExt(w - x.size(), x)
U = z3.ULT
def ule(a, b): return z3.ULE(a, b)
def ult(a, b): return z3.ULT(a, b)
def imp(a, b): return z3.Implies(a, b)
def by(ex, st, label, goal, facts, assume=True):
    """goal follows from the listed facts alone; each fact (or (fact, {kind: [terms]})) is an obligation of its own, instantiated at just those terms"""
    fs = []
    for k, f in enumerate(facts):
        f, t = f if isinstance(f, tuple) else (f, None); f = z3.simplify(f); fs.append(f); s = st.copy()
        if t is not None:
            s.terms = {}
            if "only" in t: s.hyps = [h for h in s.hyps if isinstance(h, Forall)] + fs[:-1]      # quantified facts and the previous steps
            for kind, l in t.items():
                if kind != "only": [s.term(kind, z3.simplify(x)) for x in l]
        ex.oblige(s, f"{label}: step {k}", f)
    s = st.copy(); s.hyps = fs; s.terms = {}; ex.oblige(s, f"{label}: conclusion", goal)
    if assume: st.assume(goal)
