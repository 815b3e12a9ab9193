"""Invertible hash functions: for every width 1..64 each hash is a bijection of [0,2^w) and ihash is its inverse."""
import re
from contracts.common import *
REPLAY = "B13.cpp"
LEVEL = "proof"
NOTE = "Xorshift (every step constant, symbolic width) and MultiplyHash (every width 1..64 and step constant, from the code's own prime table) are proved to stay in the domain and to be mutually inverse for every input; SplitMixHash is proved over those contracts for every width and input."
ASSUMPTIONS = ["inputs lie in the configured domain [0, 2^w)"]
ule, ult, And = z3.ULE, z3.ULT, z3.And

def pre(ex, st, w):
    x = z3.BitVec("x", 64); st.ghost["x"] = x; st.ghost["w"] = w
    if z3.is_expr(w): st.assume(ule(1, w), ule(w, 64))
    st.assume(ule(x, M(w))); return x
def M(w): return bv((1 << w) - 1) if isinstance(w, int) else mask(zx(w))
def spec(fn, title, w, post, default=False, models=()):
    def req(ex, st):
        ww = z3.BitVec("w", 32) if w is None else w; x = pre(ex, st, ww)
        return [x] if default else [bv(ww, 32) if isinstance(ww, int) else ww, x]
    def ens(ex, p, st, r): return post(M(st.ghost["w"]), st.ghost["x"], r)
    return Spec(fn, req, ens, title=title + ("" if w is None else f" at width {w}"), models=models)
def dom(m, x, r): yield "result in the domain", ule(r, m), "bv"
def inv(m, x, r): yield "round trip gives back the input", r == x, "bv"

# ---- contracts of the steps, as used by SplitMixHash
F = {(c, d, k): z3.Function(f"{c}.{d}.{k}", z3.BitVecSort(64), z3.BitVecSort(64)) for c in ("Xorshift", "MultiplyHash") for d in ("hash", "ihash") for k in range(3)}
def step(c, d, k):
    f, g = F[c, d, k], F[c, "ihash" if d == "hash" else "hash", k]
    def m(ex, st, ins, args):
        o, x = args; w = st.ghost["w"]; ww = bv(w, 32) if isinstance(w, int) else w
        if not (isinstance(o, Ptr) and o.o.const() is not None): raise Unsupported("step on unknown object")
        b = o.o.const()
        if c == "Xorshift": ex.oblige(st, f"precondition of {c}::{d}: object configured for the width", ex.cell(st, o.r, b, 32) == z3.UDiv(ww + 1, bv(2, 32)))
        else: ex.oblige(st, f"precondition of {c}::{d}: object configured for the width", And(ex.cell(st, o.r, b, 32) == ww, ex.cell(st, o.r, b + 8, 64) == M(w)))
        ex.oblige(st, f"precondition of {c}::{d}: argument in the domain", ule(x, M(w)))
        r = f(x); st.assume(ule(r, M(w)), g(r) == x); return r
    m.label = f"{c}::{d}<{k}> (contract proved in this check for every width)"
    return m
STEPS = [(re.compile(rf"{c}::{d}<{k}u>\("), step(c, d, k)) for (c, d, k) in F]

def units():
    A = []
    for k in range(3):
        A.append(spec(f"w_xs{k}", f"Xorshift::hash<{k}>", None, dom)); A.append(spec(f"w_xs_hi{k}", f"Xorshift::hash<{k}> of ihash", None, inv)); A.append(spec(f"w_xs_ih{k}", f"Xorshift::ihash<{k}> of hash", None, inv))
        for w in range(1, 65):
            A += [spec(f"w_mul{k}", f"MultiplyHash::hash<{k}>", w, dom), spec(f"w_imul{k}", f"MultiplyHash::ihash<{k}>", w, dom),
                  spec(f"w_mul_hi{k}", f"MultiplyHash::hash<{k}> of ihash", w, inv), spec(f"w_mul_ih{k}", f"MultiplyHash::ihash<{k}> of hash", w, inv)]
    for n in ("xs", "mul"): A += [spec(f"w_{n}_def_hi", f"default-constructed {n}: hash of ihash", 64, inv, True), spec(f"w_{n}_def_ih", f"default-constructed {n}: ihash of hash", 64, inv, True)]
    S = [spec("w_split", "SplitMixHash::hash", None, dom), spec("w_isplit", "SplitMixHash::ihash", None, dom), spec("w_split_hi", "SplitMixHash::hash of ihash", None, inv), spec("w_split_ih", "SplitMixHash::ihash of hash", None, inv),
         spec("w_split_def_hi", "default SplitMixHash: hash of ihash", 64, inv, True), spec("w_split_def_ih", "default SplitMixHash: ihash of hash", 64, inv, True)]
    return [dict(tu="bijhash.cpp", specs=A), dict(tu="bijhash.cpp", keep=[r"(Xorshift|MultiplyHash)::i?hash<"], specs=S, models=STEPS)]
