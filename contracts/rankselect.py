"""Shared contracts of SuccinctBitVector (properties B02, B03): counting functions, structure invariant, loops."""
from contracts.common import *
from contracts.vecs import *
from contracts.B01 import make_bv, nwords, getbit, BVv
B = z3.BitVecSort(64)
PC = z3.Function("ones", B, B)              # number of ones of a word
PM = z3.Function("ones_low", B, B, B)       # number of ones among the k low bits of a word
NLIM = bv(1 << 40); WLIM = bv(1 << 52)
lsr = lambda x, k: z3.LShR(x, bv(k))
ult, ule, And, Sel = z3.ULT, z3.ULE, z3.And, z3.Select
BASIC, TIPS = 32, 56                        # layout: bits_{size,begin,end,cap} basic_block_ select_tips_

class Count:
    """ghost counting functions of one word array: W(w) = ones in words [0,w), R(p) = ones in bits [0,p)"""
    def __init__(self, ex, st, a, tag=""):
        self.a = a; self.W = W = z3.Function("W" + tag, B, B)
        st.assume(W(bv(0)) == 0)
        st.assume(Forall(lambda w: imp(ult(w, WLIM), And(W(w + 1) == W(w) + PC(Sel(a, w)), ule(PC(Sel(a, w)), 64))), "w"))
        st.assume(Forall(lambda w, k: imp(ule(k, 64), And(ule(PM(Sel(a, w), k), k), ule(PM(Sel(a, w), k), PC(Sel(a, w))), PM(Sel(a, w), bv(0)) == 0)), ["w", "k"]))
    # instances of the monotonicity lemmas (proved by induction in lemmas())
    def mono(self, u, v): W = self.W; return imp(And(ule(u, v), ule(v, WLIM)), And(ule(W(u), W(v)), ule(W(v) - W(u), (v - u) << 6), ule(W(v), v << 6)))
    def rmono(self, u, v): return imp(And(ule(u, v), ult(v, NLIM << 1)), ule(self.R(u), self.R(v)))
    def R(self, p): return self.W(lsr(p, 6)) + z3.If(p & 63 == 0, bv(0), PM(Sel(self.a, lsr(p, 6)), p & 63))

def lemmas():
    x, k, w, p, u, v = z3.BitVecs("x k w p u v", 64); out = []
    pc, pm = popcount, (lambda x, k: popcount(x & mask(k)))
    out.append(("word: ones among k low bits <= k", [ule(k, 64)], ule(pm(x, k), k), "bv"))
    out.append(("word: ones among k low bits <= ones", [], ule(pm(x, k), pc(x)), "bv"))
    out.append(("word: all 64", [], And(pm(x, bv(64)) == pc(x), pm(x, bv(0)) == 0, ule(pc(x), 64)), "bv"))
    out.append(("word: one more bit", [ult(k, 64)], pm(x, k + 1) == pm(x, k) + z3.If(bit(x, k), bv(1), bv(0)), "bv"))
    # R counts: R(0) = 0 and R(p+1) = R(p) + bit(p), from the word facts and the recursion of W
    a = z3.Array("a", B, B); W = z3.Function("W", B, B)
    R = lambda p: W(lsr(p, 6)) + z3.If(p & 63 == 0, bv(0), PM(Sel(a, lsr(p, 6)), p & 63))
    wp = lsr(p, 6); xx = Sel(a, wp)
    H = [W(bv(0)) == 0, W(wp + 1) == W(wp) + PC(xx), PM(xx, bv(0)) == 0, PM(xx, bv(64)) == PC(xx), PM(xx, (p & 63) + 1) == PM(xx, p & 63) + z3.If(bit(xx, p & 63), bv(1), bv(0)), ult(p, NLIM)]
    out.append(("R(0)=0", [W(bv(0)) == 0], R(bv(0)) == 0))
    out.append(("R(p+1)=R(p)+bit(p)", H, R(p + 1) == R(p) + z3.If(bit(xx, p & 63), bv(1), bv(0))))
    # monotonicity, by induction on the upper argument
    out.append(("W monotone, induction step", [ule(u, v), ult(v, WLIM), ule(W(u), W(v)), ule(W(v) - W(u), (v - u) * 64), ule(W(v), v * 64), W(v + 1) == W(v) + PC(Sel(a, v)), ule(PC(Sel(a, v)), 64)],
                And(ule(W(u), W(v + 1)), ule(W(v + 1) - W(u), (v + 1 - u) * 64), ule(W(v + 1), (v + 1) * 64))))
    out.append(("W monotone, base", [], And(ule(W(u), W(u)), W(u) - W(u) == 0)))
    out.append(("R monotone, induction step", [ule(u, p), ule(R(u), R(p)), ult(R(p), bv(1 << 60)), R(p + 1) == R(p) + z3.If(bit(xx, p & 63), bv(1), bv(0))], ule(R(u), R(p + 1))))
    return out

def field(x, k): return lsr(x, 63 - 9 * k) & 511
def block_ok(c, n, b, j, basic):
    """block j: base count and the 9-bit cumulative counts of its whole words"""
    x = Sel(basic, 2 * j + 1)
    return And(Sel(basic, 2 * j) == c.W(8 * j), lsr(x, 63) == 0,
               *[imp(ule(8 * j + k, lsr(n, 6)), field(x, k) == c.W(8 * j + k) - c.W(8 * j)) for k in range(1, 8)])

class Sv:
    def __init__(self, ex, st, o, c, T):
        self.ex, self.st, self.o, self.c, self.T = ex, st, o, c, T
        self.bv = BVv(ex, st, o); self.n = self.bv.n; self.nb = lsr(self.n, 9) + 1
        _, self.basic, self.blen = ex.vec(st, o, BASIC)
        if T: _, self.tips, self.tlen = ex.vec(st, o, TIPS)
    def t(self, i): return z3.ZeroExt(32, Sel(self.tips, i))
    def wf(self):
        n, nb, c, W = self.n, self.nb, self.c, self.c.W
        yield "bits storage", self.bv.words == nwords(n)
        yield "one base word and one field word per block", self.blen == 2 * nb
        yield "every block holds its cumulative counts", Forall(lambda j: (imp(ult(j, nb), block_ok(c, n, nb, j, self.basic)), [("basic", 2 * j), ("basic", 2 * j + 1)]), "blk", name="j")
        if self.T:
            L = self.tlen; t = self.t
            yield "no tips for an empty vector", imp(n == 0, L == 0)
            yield "tips: first, last and count", imp(n != 0, And(ule(2, L), ule(L, nb + 1), t(bv(0)) == 0, t(L - 1) == nb - 1, ult(W(8 * (nb - 1)), 512 * (L - 1))))
            yield "tip t is the block before the one that reaches 512t ones", Forall(lambda i: (imp(And(n != 0, ule(1, i), ult(i, L - 1)), And(ult(t(i) + 1, nb), ult(W(8 * t(i)), 512 * i), ule(512 * i, W(8 * (t(i) + 1))))), [("blk", t(i)), ("blk", t(i) + 1)]), "tip", name="t")

def make_sv(ex, st, T):
    o = ex.new_struct("sv", 80); n = z3.BitVec("n", 64); st.mem[(o.id, 0)] = n; st.assume(ult(n, NLIM))
    ex.make_vec(st, o, 8, "bits", 8, nwords(n))
    ex.make_vec(st, o, BASIC, "basic", 8, z3.BitVec("blen", 64))
    if T: ex.make_vec(st, o, TIPS, "tips", 4, z3.BitVec("tlen", 64)); st.assume(ult(z3.BitVec("tlen", 64), bv(1 << 40)))
    st.assume(ult(z3.BitVec("blen", 64), bv(1 << 40)))
    c = Count(ex, st, BVv(ex, st, o).a); st.ghost.update(o=o, c=c, n=n)
    s = Sv(ex, st, o, c, T)
    for _, g in s.wf(): st.assume(g)
    return o, s

# ------------------------------------------------------------------ callee contracts
def m_popcnt(ex, st, ins, args): return PC(args[0])
m_popcnt.label = "bit_util::popcnt<uint64_t> = number of ones (proved under B04)"
def m_cnt(ex, st, ins, args):
    ex.safety(st, "cnt: prefix length at most 64", ule(args[1], 64)); return PM(args[0], args[1])
m_cnt.label = "bit_util::cnt<uint64_t> = ones among the low bits (proved under B04)"
def m_sel(ex, st, ins, args):
    x, i = args
    if "wsel" in st.ghost:
        w, s_, k_ = st.ghost["wsel"], st.ghost["s"], st.ghost["k"]
        for lab, f in (("the word searched", x == Sel(s_.bv.a, w)), ("its rank in the word", i == k_ + 1 - s_.c.W(w))):
            for v in range(8): ex.oblige(st, f"in-word select: {lab} (word {v} of the block)", imp(w & 7 == v, f))
            st.assume(f)
    ex.safety(st, "sel: argument between 1 and the number of ones", And(ule(1, i), ule(i, PC(x))))
    r = fresh("sel", 32); k = z3.SignExt(32, r)
    st.assume(ule(k, 64)); st.assume(And(r >= 1, r <= 64), bit(x, k - 1), PM(x, k) == i, PM(x, k - 1) == i - 1, imp(k == 1, i == 1)); st.term("k", k - 1); st.term("k", k); st.ghost["sel"] = k
    return r
m_sel.label = "bit_util::sel (proved under B04)"
MODELS = [(re.compile(r"bit_util::popcnt<unsigned long>"), m_popcnt), (re.compile(r"bit_util::cnt<unsigned long>"), m_cnt), (re.compile(r"bit_util::sel\("), m_sel)]
KEEP = KEEP_VEC + [r"bit_util::(popcnt|cnt)<unsigned long>\(", r"bit_util::sel\("]

# ------------------------------------------------------------------ construction
def ctor_loops(T):
    def loops(ex, blk, n):
        if n == 1 and T: return tips_loop()
        if n != 0: return None
        def inv(L):
            st = L.st; g = st.ghost; c = g["c"]; W = c.W; o = g["o"]; nn = g["n"]
            i, sm, sw = L.v("i"), L.v("sum"), L.v("sum_word"); d = L.ix("bits")
            _, basic, blen = ex.vec(st, o, BASIC); b = lsr(i - 1, 3); r = (i - 1) & 7; nb = lsr(nn, 9) + 1
            yield "counter", And(ule(1, i), ule(i, z3.If(ult(nn, 64), bv(1), lsr(nn, 6)))), 
            yield "cursor is at the previous word", d == i - 1
            yield "blocks allocated", blen == 2 * nb
            yield "running count of the block", sm == W(i) - W(8 * b)
            yield "field word so far", And(lsr(sw, 63) == 0, *[field(sw, k) == z3.If(ule(bv(k), r), W(8 * b + k) - W(8 * b), bv(0)) for k in range(1, 8)])
            yield "base count of the current block", Sel(basic, 2 * b) == W(8 * b)
            yield "finished blocks", Forall(lambda j: (imp(ult(j, b), block_ok(c, nn, nb, j, basic)), [("basic", 2 * j), ("basic", 2 * j + 1)]), "blk", name="j")
        def terms(L):
            st = L.st; i = L.v("i"); b = lsr(i - 1, 3)
            st.term("w", i); st.term("blk", b); st.assume(st.ghost["c"].mono(8 * b, i))
        return Loop("block loop", inv, lambda L: z3.If(ult(L.st.ghost["n"], 64), bv(1), lsr(L.st.ghost["n"], 6)) - L.v("i"), terms=terms, roles={"i": 64, "sum": 64, "sum_word": 64})
    return loops
def tips_loop():
    def inv(L):
        st = L.st; g = st.ghost; W = g["c"].W; o = g["o"]; nn = g["n"]; nb = lsr(nn, 9) + 1; ex = L.ex
        j, thr = L.v("j"), L.v("sum_threshold")
        _, tips, ln = ex.vec(st, o, TIPS); t = lambda i: z3.ZeroExt(32, Sel(tips, i)); _, basic, blen = ex.vec(st, o, BASIC); c = g["c"]
        yield "blocks allocated", blen == 2 * nb
        yield "every block holds its cumulative counts", Forall(lambda j: (imp(ult(j, nb), block_ok(c, nn, nb, j, basic)), [("basic", 2 * j), ("basic", 2 * j + 1)]), "blk", name="j")
        yield "counter", And(nn != 0, ule(1, j), ule(j, nb), ule(1, ln), ule(ln, j), thr == 512 * ln)
        yield "first tip", t(bv(0)) == 0
        yield "next threshold not reached before this block", ult(W(8 * (j - 1)), thr)
        yield "tips so far", Forall(lambda i: (imp(And(ule(1, i), ult(i, ln)), And(ult(t(i) + 1, j), ult(W(8 * t(i)), 512 * i), ule(512 * i, W(8 * (t(i) + 1))))), [("blk", t(i)), ("blk", t(i) + 1)]), "tip", name="t")
    def terms(L):
        st = L.st; j = L.v("j"); _, tips, ln = L.ex.vec(st, st.ghost["o"], TIPS)
        st.term("blk", j); st.assume(st.ghost["c"].mono(8 * (j - 1), 8 * j))
        st.term("tip", ln); st.term("tip", ln - 1)
    return Loop("tips loop", inv, lambda L: lsr(L.st.ghost["n"], 9) + 1 - L.v("j"), terms=terms, roles={"j": 64, "sum_threshold": 64}, forget=True)

def ctor(fn, T, title, how):
    def req(ex, st):
        o = ex.new_struct("sv", 80); st.ghost["o"] = o
        if how == "default":
            st.ghost["n"] = bv(0); st.ghost["c"] = Count(ex, st, fresh_arr("none", 64)); return [Ptr(o)]
        b = make_bv(ex, st, limit=NLIM); v = BVv(ex, st, b)
        st.ghost.update(n=v.n, c=Count(ex, st, v.a), b=b, a0=v.a)
        n = v.n
        st.term("w", bv(0)); st.term("blk", lsr(n, 9)); st.term("tip", bv(0)); st.term("tip", bv(1))
        return [Ptr(o), Ptr(b)]
    def ens(ex, pre, st, r):
        g = st.ghost; s = Sv(ex, st, g["o"], g["c"], T)
        yield "length of the source", s.n == g["n"]
        if how != "default": yield "bits of the source", Forall(lambda w: Sel(s.bv.a, w) == Sel(g["a0"], w), "idx")
        for x in s.wf(): yield x
    return Spec(fn, req, ens, loops=ctor_loops(T), title=title)
def name_of(p): return {8: "bits", BASIC: "basic", TIPS: "tips"}.get(p.o.const())

# ------------------------------------------------------------------ queries
def rank_spec(fn, T, zero, title):
    def req(ex, st):
        o, s = make_sv(ex, st, T); i = z3.BitVec("i", 64); st.ghost["i"] = i; st.assume(ule(i, s.n))
        st.term("blk", lsr(i, 9)); st.term("w", lsr(i, 6)); st.term("k", i & 63)
        return [Ptr(o), i]
    def ens(ex, pre, st, r):
        i = st.ghost["i"]; c = st.ghost["c"]
        yield ("number of zeros before i" if zero else "number of ones before i"), r == (i - c.R(i) if zero else c.R(i))
    return Spec(fn, req, ens, title=title)

def select_spec():
    def req(ex, st):
        o, s = make_sv(ex, st, True); k = z3.BitVec("k", 64); st.ghost.update(k=k, s=s); n = s.n; c = s.c
        st.assume(ult(k, c.R(n)))
        st.term("w", lsr(n, 6)); st.assume(c.mono(8 * (s.nb - 1), lsr(n, 6)))
        st.term("k", n & 63); st.term("tip", lsr(k, 9)); st.term("tip", lsr(k, 9) + 1)
        st.assume(c.mono(8 * (s.t(lsr(k, 9) + 1) + 1), 8 * s.t(lsr(k, 9))))
        return [Ptr(o), k]
    def loops(ex, blk, n):
        if n == 0:
            def inv(L):
                l, r = L.v("left"), L.v("right"); s = L.st.ghost["s"]; W = s.c.W; k = L.st.ghost["k"]
                yield "range", And(ult(l, r), ule(r, s.nb))
                yield "target is not before left", ule(W(8 * l), k)
                yield "target is before right", z3.Or(r == s.nb, ult(k, W(8 * r)))
            def terms(L): l, r = L.v("left"), L.v("right"); L.st.term("blk", l); L.st.term("blk", lsr(l + r, 1))
            return Loop("block search", inv, lambda L: L.v("right") - L.v("left"), terms=terms, roles={"left": 64, "right": 64}, forget=True, after=lambda st, L: st.ghost.update(left=L.v("left")))
        if n == 1:
            def inv(L):
                off, ix = L.v("offset"), L.v("index"); s = L.st.ghost["s"]; W = s.c.W; k = L.st.ghost["k"]; lf = L.st.ghost["left"]; b8 = lf << 3
                yield "block", And(L.e.v("index") == b8 + 1, ult(lf, s.nb), ule(W(b8), k), z3.Or(lf + 1 == s.nb, ult(k, W(b8 + 8))))
                yield "range", And(ule(1, off), ule(off, 8), ix == b8 + off, ule(ix, lsr(s.n, 6) + 1))
                yield "target is not before the previous word", ule(W(b8 + off - 1), k)
            def terms(L):
                off, ix = L.v("offset"), L.v("index"); L.st.term("blk", L.st.ghost["left"]); L.st.term("w", ix - 1)
            def after(st, L):
                s = st.ghost["s"]; W = s.c.W; k = st.ghost["k"]; w = (st.ghost["left"] << 3) + L.v("offset") - 1; st.ghost["wsel"] = w
                for lab, f in (("the word before it is not past the target", ule(W(w), k)), ("the target lies in this word", ult(k, W(w + 1))), ("a word of the vector", ule(w, lsr(s.n, 6)))):
                    L.ex.oblige(st, "word search: on exit " + lab, f); st.assume(f)
            return Loop("word search", inv, lambda L: bv(8) - L.v("offset"), terms=terms, roles={"offset": 64, "index": 64}, forget=True, after=after)
    def ens(ex, pre, st, p):
        s = st.ghost["s"]; k = st.ghost["k"]; c = s.c; b = st.ghost.get("sel"); b = p & 63 if b is None else b - 1
        w = lsr(p - b, 6); lim = And(p - b == w << 6, ult(b, 64), ult(p, NLIM << 1))
        yield "holds a one", getbit(s.bv.a, p), None, [lim, bit(Sel(s.bv.a, w), b)]
        yield "exactly k ones before it", c.R(p) == k, None, [lim, c.W(w) + PM(Sel(s.bv.a, w), b) == k, PM(Sel(s.bv.a, w), bv(0)) == 0]
        st.assume(c.R(p) == k, c.rmono(s.n, p))
        yield "a position of the vector", ult(p, s.n), None, [lim, c.R(p) == k, ult(k, c.R(s.n)), c.rmono(s.n, p)]
    return Spec("w_selectT", req, ens, loops=loops, title="select")

def get_spec(fn, T):
    def req(ex, st):
        o, s = make_sv(ex, st, T); i = z3.BitVec("i", 64); st.ghost.update(i=i, s=s); st.assume(ult(i, s.n)); st.term("idx", lsr(i, 6)); return [Ptr(o), i]
    return Spec(fn, req, lambda ex, pre, st, r: [("the addressed bit", r == st.ghost["s"].bv.bit(st.ghost["i"]))], title="operator[]")
