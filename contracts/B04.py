"""64-bit word primitives: every function against its mathematical definition, for all inputs."""
import re
from contracts.common import *
REPLAY = "B04.cpp"
LEVEL = "proof"
NOTE = "Every primitive is proved against its mathematical definition for all inputs (bit-vector exact); trusts clang/LLVM inlining used for extraction, the VC generator and the SMT solvers. Only the portable branch the repository builds is covered."
ASSUMPTIONS = ["the portable (non-intrinsic) branch selected by the repository's own build flags is what is verified; hardware-intrinsic branches (-mpopcnt/-mbmi/-mlzcnt/-mbmi2) are outside",
               "in-word select: 1 <= i <= popcount(x); field extraction: start < 64, len <= 64; widths <= 64; offsets < 64"]

def unary(fn, w, post, pre=None, title=None, shape="bv"):
    def req(ex, st):
        x = z3.BitVec("x", w); st.ghost["x"] = x
        if pre is not None: st.assume(pre(x))
        return [x]
    def ens(ex, pre_, st, r):
        for lab, g in post(st.ghost["x"], r): yield lab, g, shape
    return Spec(fn, req, ens, title=title or fn[2:], loops=auto_unroll)
def auto_unroll(ex, blk, n): return Loop(f"loop{n}", unroll=130)

def groups(x, step, width, pat):
    """number of aligned groups of `width` bits (every `step` bits) equal to pat, as 64-bit"""
    return bits_sum([z3.Extract(k + width - 1, k, x) == bv(pat, width) for k in range(0, 64 - width + 1, step)])

def ctz_post(w):
    def post(x, r):
        r = sx(r, 64) if w == 64 else r
        k = r if r.size() == w else z3.ZeroExt(w - r.size(), r)
        yield "0 <= result <= width", z3.And(r >= 0, r <= w)
        yield "result is the width iff no bit is set", (r == w) == (x == 0)
        yield "the bit at the result is set", imp(x != 0, bit(x, k))
        yield "all lower bits are clear", imp(x != 0, x & ((bv(1, w) << k) - 1) == 0)
    return post
def clz_post(w):
    def post(x, r):
        r = sx(r, 64) if w == 64 else r
        k = r
        yield "0 <= result <= width", z3.And(r >= 0, r <= w)
        yield "result is the width iff no bit is set", (r == w) == (x == 0)
        yield "the bit at width-1-result is set", imp(x != 0, bit(x, bv(w - 1, w) - k))
        yield "all higher bits are clear", imp(x != 0, z3.LShR(x, bv(w, w) - k) == z3.If(k == 0, z3.LShR(x, bv(w, w)), bv(0, w)))
    return post

def sel_spec():
    def req(ex, st):
        x, i = z3.BitVecs("x i", 64); st.ghost.update(x=x, i=i)
        st.assume(z3.UGE(i, bv(1)), z3.ULE(i, popcount(x)))
        return [x, i]
    def ens(ex, pre, st, r):
        x, i = st.ghost["x"], st.ghost["i"]; r = sx(r, 64)
        yield "result in 1..64", z3.And(r >= 1, r <= 64), "bv"
        yield "the bit at result-1 is set", bit(x, r - 1), "bv"
        yield "exactly i ones up to and including it", popcount(x & mask(r)) == i, "bv"
    return Spec("w_sel", req, ens, title="sel(x,i)", loops=auto_unroll)

def swap_post(n):
    def post(x, r):
        for k in range(64):
            pass
        lanes = [z3.Extract(n * j + n - 1, n * j, x) for j in range(64 // n)]
        sw = [lanes[j ^ 1] for j in range(64 // n)]
        yield f"adjacent {n}-bit groups exchanged", r == z3.Concat(*reversed(sw))
        y = z3.Concat(*reversed(sw)); l2 = [z3.Extract(n * j + n - 1, n * j, y) for j in range(64 // n)]
        yield "applying the exchange twice gives the argument back", z3.Concat(*reversed([l2[j ^ 1] for j in range(64 // n)])) == x
    return post

def specs():
    S = []
    pc = lambda x, r: [("number of ones", r == popcount(x, r.size()))]
    for n, w in ((8, 8), (16, 16), (32, 32), (64, 64)): S.append(unary(f"w_popcnt{n}", w, pc))
    for n in (8, 16, 32, 64): S.append(unary(f"w_popcnt_u{n}", n, pc))
    S.append(unary("w_popcnt11", 64, lambda x, r: [("number of aligned pairs equal to 11", r == groups(x, 2, 2, 3))]))
    S.append(unary("w_popcnt10", 64, lambda x, r: [("number of aligned pairs equal to 10", r == groups(x, 2, 2, 2))]))
    for p in ("111", "110", "101", "100"):
        S.append(unary("w_popcnt" + p, 64, lambda x, r, p=p: [(f"number of aligned triples equal to {p}", r == groups(x, 3, 3, int(p, 2)))]))
    S.append(unary("w_ctz32", 32, ctz_post(32))); S.append(unary("w_ctz64", 64, ctz_post(64)))
    S.append(unary("w_clz32", 32, clz_post(32))); S.append(unary("w_clz64", 64, clz_post(64)))
    S.append(unary("w_WidthMask", 64, lambda w, r: [("exactly the w low bits", r == mask(w))], pre=lambda w: z3.ULE(w, 64)))
    S.append(unary("w_OffsetMask", 64, lambda w, r: [("exactly the addressed bit", z3.And(bit(r, w), popcount(r) == 1))], pre=lambda w: z3.ULT(w, 64)))
    def breq(ex, st):
        x, s, l = z3.BitVecs("x s l", 64); st.ghost.update(x=x, s=s, l=l); st.assume(z3.ULT(s, 64), z3.ULE(l, 64)); return [x, s, l]
    S.append(Spec("w_bextr", breq, lambda ex, pre, st, r: [("bits [start,start+len) right-aligned, zero above", r == z3.LShR(st.ghost["x"], st.ghost["s"]) & mask(st.ghost["l"]), "bv")], title="bextr"))
    def creq(ex, st):
        x, l = z3.BitVecs("x l", 64); st.ghost.update(x=x, l=l); st.assume(z3.ULE(l, 64)); return [x, l]
    S.append(Spec("w_cnt", creq, lambda ex, pre, st, r: [("number of ones among the len low bits", r == popcount(st.ghost["x"] & mask(st.ghost["l"])), "bv")], title="cnt"))
    S.append(sel_spec())
    for n in (1, 2, 4, 8, 16, 32): S.append(unary(f"w_swap{n}", 64, swap_post(n)))
    def kreq(n):
        def f(ex, st):
            k = z3.BitVec("k", 32); st.ghost["k"] = k; st.assume(z3.ULT(k, n)); return [k]
        return f
    W = [0, 1, 8, 9, 33, 63, 64]; O = [0, 1, 31, 32, 63]
    S.append(Spec("w_wmask_all", kreq(len(W)), lambda ex, pre, st, r: [(f"width_mask<{w}>", imp(st.ghost["k"] == n, r == mask(w))) for n, w in enumerate(W)], title="width_mask<N>"))
    S.append(Spec("w_omask_all", kreq(len(O)), lambda ex, pre, st, r: [(f"offset_mask<{w}>", imp(st.ghost["k"] == n, r == bv(1 << w))) for n, w in enumerate(O)], title="offset_mask<N>"))
    return S

def pc_model(w):
    def m(ex, st, ins, args): return popcount(args[0], w)
    m.label = f"bit_util::popcnt{w} = number of ones (proved here)"
    return (re.compile(rf"bit_util::popcnt{w}\("), m)
PC_KEEP = [r"bit_util::popcnt(8|16|32|64)\("]
PC_MODELS = [pc_model(w) for w in (8, 16, 32, 64)]

def units():
    S = specs()
    leaf = [s for s in S if re.match(r"w_popcnt(8|16|32|64)$", s.fn)]
    rest = [s for s in S if s not in leaf]
    return [dict(tu="bitutil.cpp", keep=[], specs=leaf, models=[]),
            dict(tu="bitutil.cpp", keep=PC_KEEP, specs=rest, models=PC_MODELS)]
