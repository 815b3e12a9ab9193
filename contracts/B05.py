"""256-bit block primitives."""
import re
from contracts.common import *
REPLAY = "B05.cpp"
LEVEL = "proof"
NOTE = "Every 256-bit primitive is proved against the 256-bit mathematical definition for all blocks, callees through the contracts proved under B04; only the portable (non-AVX) branch the repository builds is covered."
ASSUMPTIONS = ["the portable branch selected by the repository's own build flags is what is verified; the AVX branches are outside", "source and destination blocks do not overlap"]

def block(ex, st, name, ro=False):
    r = ex.new_array(st, name, 8, 4, readonly=ro); a = ex.arr(st, r)
    for k in range(4): st.term("idx", bv(k))
    return r
def words(ex, st, r): a = ex.arr(st, r); return [z3.Select(a, bv(k)) for k in range(4)]
def wide(ws): return z3.Concat(*reversed(ws))
def unroll(ex, blk, n): return Loop(f"loop{n}", unroll=8)

def setS():
    def req(ex, st):
        b = z3.Bool("b"); r = block(ex, st, "dst"); st.ghost.update(b=b, r=r); return [b, Ptr(r)]
    def ens(ex, pre, st, ret):
        for k, w in enumerate(words(ex, st, st.ghost["r"])): yield f"word {k} is the fill word", w == z3.If(st.ghost["b"], bv((1 << 64) - 1), bv(0))
    return Spec("w_set256", req, ens, loops=unroll, title="set256_epi1")
def copyS():
    def req(ex, st):
        s, d = block(ex, st, "src", True), block(ex, st, "dst"); st.ghost.update(s=s, d=d); return [Ptr(s), Ptr(d)]
    def ens(ex, pre, st, ret):
        for k in range(4): yield f"word {k} copied", words(ex, st, st.ghost["d"])[k] == words(ex, pre, st.ghost["s"])[k]
    return Spec("w_copy256", req, ens, loops=unroll, title="copy256_epi64")
def src(fn, title, post):
    def req(ex, st):
        s = block(ex, st, "src", True); st.ghost["s"] = s; return [Ptr(s)]
    def ens(ex, pre, st, ret):
        for l, g in post(words(ex, pre, st.ghost["s"]), ret): yield l, g, "bv"
    return Spec(fn, req, ens, loops=unroll, title=title)
def xorS():
    def req(ex, st):
        s, d = block(ex, st, "src", True), block(ex, st, "dst"); m = z3.BitVec("mask", 8); st.ghost.update(s=s, d=d, m=m); return [Ptr(s), m, Ptr(d)]
    def ens(ex, pre, st, ret):
        S = wide(words(ex, pre, st.ghost["s"])); D = wide(words(ex, st, st.ghost["d"])); m = z3.ZeroExt(248, st.ghost["m"])
        # permuted by definition: exchange aligned groups of 2^j bits for every set mask bit j
        X = S
        for j in range(8):
            n = 1 << j; sw = z3.Concat(*reversed([z3.Extract(n * (k ^ 1) + n - 1, n * (k ^ 1), X) for k in range(256 // n)]))
            X = z3.If(z3.Extract(j, j, st.ghost["m"]) == 1, sw, X)
        yield "destination is the xor-permuted source", D == X, "bv"
    return Spec("w_xormap", req, ens, loops=unroll, title="xor_map")

def lemmas():
    # the group-exchange formulation used above is bit p -> bit p xor mask, for every bit and every mask
    x = z3.BitVec("x", 256); out = []
    for j in range(8):
        n = 1 << j; sw = z3.Concat(*reversed([z3.Extract(n * (k ^ 1) + n - 1, n * (k ^ 1), x) for k in range(256 // n)]))
        out.append((f"exchanging groups of {n} bits moves bit p to bit p xor {n}", [], z3.And(*[z3.Extract(p ^ n, p ^ n, sw) == z3.Extract(p, p, x) for p in range(256)]), "bv"))
        out.append((f"exchanging groups of {n} bits twice is the identity", [], z3.Concat(*reversed([z3.Extract(n * (k ^ 1) + n - 1, n * (k ^ 1), sw) for k in range(256 // n)])) == x, "bv"))
    return out

def specs():
    def zero(ws, r): yield "true iff all words are zero", r == (wide(ws) == 0)
    def pc(ws, r): yield "number of ones", r == sum((popcount(w, 32) for w in ws[1:]), popcount(ws[0], 32))
    def ctz(ws, r):
        X = wide(ws); k = z3.SignExt(224, r)
        yield "0..256", z3.And(r >= 0, r <= 256); yield "256 iff zero", (r == 256) == (X == 0)
        yield "bit at the result set", imp(X != 0, bit(X, k)); yield "all lower bits clear", imp(X != 0, X & ((bv(1, 256) << k) - 1) == 0)
    def clz(ws, r):
        X = wide(ws); k = z3.SignExt(224, r)
        yield "0..256", z3.And(r >= 0, r <= 256); yield "256 iff zero", (r == 256) == (X == 0)
        yield "bit at 255-result set", imp(X != 0, bit(X, 255 - k)); yield "all higher bits clear", imp(X != 0, z3.LShR(z3.LShR(X, 255 - k), bv(1, 256)) == 0)
    return [setS(), copyS(), src("w_iszero256", "is_zero256", zero), src("w_popcnt256", "popcnt256", pc), src("w_ctz256", "ctz256", ctz), src("w_clz256", "clz256", clz), xorS()]

def m_pc(ex, st, ins, args): return popcount(args[0])
m_pc.label = "bit_util::popcnt64 = number of ones (proved under B04)"
def m_ctz(ex, st, ins, args):
    x = args[0]; r = fresh("ctz", 32); k = z3.ZeroExt(32, r)
    st.assume(z3.And(r >= 0, r <= 64), (r == 64) == (x == 0), imp(x != 0, bit(x, k)), imp(x != 0, x & ((bv(1) << k) - 1) == 0)); return r
m_ctz.label = "bit_util::ctz(u64) (proved under B04)"
def m_clz(ex, st, ins, args):
    x = args[0]; r = fresh("clz", 32); k = z3.ZeroExt(32, r)
    st.assume(z3.And(r >= 0, r <= 64), (r == 64) == (x == 0), imp(x != 0, bit(x, 63 - k)), imp(x != 0, z3.LShR(z3.LShR(x, 63 - k), bv(1)) == 0)); return r
m_clz.label = "bit_util::clz(u64) (proved under B04)"
KEEP = [r"bit_util::popcnt64\(", r"bit_util::c[tl]z\(unsigned long\)"]
MODELS = [(re.compile(r"bit_util::popcnt64\("), m_pc), (re.compile(r"bit_util::ctz\(unsigned long\)"), m_ctz), (re.compile(r"bit_util::clz\(unsigned long\)"), m_clz)]
def units(): return [dict(tu="bitutil.cpp", keep=KEEP, specs=specs(), models=MODELS)]
