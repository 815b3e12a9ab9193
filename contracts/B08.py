"""Packed vector of U-bit symbols (U = 1, 2, 3): access, update, per-symbol rank.  Symbol i lives in word i/per at slot i%per (per = 64/U symbols a word)."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B08.cpp"
LEVEL = "proof"
NOTE = "Access, update (with growth), resize and rank are proved for U = 1, 2, 3 and build for U = 1, 2 (U = 3 bounded), every symbol, every index and every content: build establishes the cumulative count tables for every symbol that occurs and rank returns the number of earlier equal symbols; word-level pattern counts are the contracts proved under B04."
BOUNDED = ["build for U = 3: sampled contents (replay harness)"]
ASSUMPTIONS = ["fewer than 2^30 words (build counts blocks with int)", "rank is asked after build without intervening updates, at a position holding a nonzero symbol", "symbol values fit U bits",
               "ceil(double(words)/c) is exact for words below 2^48 (IEEE-754 rounding argument in vc/engine.py fpround)"]
And, Or, ult, ule, Sel = z3.And, z3.Or, z3.ULT, z3.ULE, z3.Select
B = z3.BitVecSort(64)
WL = bv(1 << 30)

class K:
    def __init__(self, U):
        self.U = U; self.T = 1 << U; self.per = 64 // U; self.bpt = 4 * U
        self.Q, self.S = z3.Function(f"word_of{U}", B, B), z3.Function(f"slot_of{U}", B, B)
        self.G = [z3.Function(f"count{U}_{t}", B, B) for t in range(self.T)]      # number of slots of a word holding t
        self.W = [z3.Function(f"before{U}_{t}", B, B) for t in range(self.T)]     # occurrences of t in the words before w
        self.F = z3.Function(f"first_word{U}", B, B)                              # F(j) = bpt*j: first word of block j
        self.WB = [[z3.Function(f"at_block{U}_{t}_{o}", B, B) for o in range(self.bpt + 1)] for t in range(self.T)]   # WB[t][o](j) = W[t](F(j)+o)
    def link(self, t, j, o=None):
        """definition of WB at block j"""
        f = self.F(j); os_ = range(self.bpt + 1) if o is None else o
        return And(self.Ff(j), *[self.WB[t][q](j) == self.W[t](f + q if q else f) for q in os_])
    def Ff(self, j):
        """lemma 'first word of a block'"""
        return imp(ult(j, WL), And(ult(self.F(j), bv(1 << 36)), ule(j, self.F(j)), self.F(j + 1) == self.F(j) + self.bpt, imp(ult(self.F(j), WL), ule(j, bv((1 << 30) // self.bpt)))))
    def mono(self, i, j):
        """lemma 'blocks are ordered'"""
        return imp(And(ult(i, WL), ult(j, WL)), And(ult(i, j) == ult(self.F(i), self.F(j)), imp(ult(i, j), ule(self.F(i) + self.bpt, self.F(j)))))
    def ceil(self, ex, st, x, c):
        """lemma 'number of blocks'"""
        if c != self.bpt or not ex.quick(st, ult(x, WL)): return None
        q = fresh("blocks"); st.assume(ult(q, WL), ule(q, x), ule(x, self.F(q)), imp(x != 0, And(ule(1, q), ult(self.F(q - 1), x))), imp(x == 0, q == 0), self.Ff(q), self.Ff(q - 1)); return q
    def at(self, st, i):
        """i = per*Q(i) + S(i), the unique such decomposition"""
        st.assume(i == self.per * self.Q(i) + self.S(i), ult(self.S(i), self.per), ule(self.Q(i), bv(((1 << 64) - 1) // self.per)), ule(self.Q(i), i))
        if conc(i) is not None: st.assume(self.Q(i) == conc(i) // self.per, self.S(i) == conc(i) % self.per)
        st.term(("wq", "wq0"), self.Q(i)); st.term(("s", "s0"), self.S(i)); return self.Q(i), self.S(i)
    def nxt(self, i):
        """lemma 'next position'"""
        q, s = self.Q(i), self.S(i); e = s + 1 == self.per
        return imp(ult(i, bv(1 << 40)), And(self.Q(i + 1) == z3.If(e, q + 1, q), self.S(i + 1) == z3.If(e, bv(0), s + 1)))
    def val(self, x, s): return z3.LShR(x, s * self.U) & (self.T - 1)
    def low(self, x, s): return x & mask(s * self.U)
    def div(self, ex, st, op, a, b):
        c = conc(b)
        if c is None or a.size() != 64: return None
        if c & (c - 1) == 0 and c != self.per and not (self.U == 1 or c % self.per == 0): return None
        a = z3.simplify(a); U, per = self.U, self.per
        if op == "udiv":
            l = lin_of(a)
            if c > 1 and len(l.t) == 1 and l.c == 0 and l.t[0][0] % c == 0 and l.t[0][0] > 0 and ex.quick(st, ult(l.t[0][1], bv(1 << 50))): return l.t[0][1] * (l.t[0][0] // c)
            if c == per: return self.at(st, a)[0]
            if c % per == 0: q = self.at(st, a)[0]; return self.euclid(st, q, c // per)[0]
        else:
            l = lin_of(a)
            if len(l.t) == 1 and l.c == 0 and l.t[0][0] == U and c == per * U: return self.at(st, l.t[0][1])[1] * U       # lemma 'offset in the word'
            if c == self.bpt and z3.is_app(a) and a.decl().eq(self.Q): return self.euclid(st, a, c)[1]
        return None
    def mul(self, ex, st, a, b):
        """lemma 'first word of the block': the 32-bit product is the low half of F where that is provable"""
        i = st.ghost.get("bi")
        if i is None or a.size() != 32 or conc(b) != self.bpt: return None
        r = z3.Extract(31, 0, self.F(i))
        if not sx(a).eq(i): return None
        s2 = st.copy(); s2.assume(self.F(i) == i * self.bpt)
        return r if ex.quick(s2, And(a * b == r, ult(self.F(i), bv(1 << 31)))) else None
    def euclid(self, st, x, c):
        d = st.ghost.setdefault("ediv", {}); k = (x.get_id(), c)
        if k not in d:
            q, r = fresh("block"), fresh("rem"); st.assume(x == q * c + r, ult(r, c), ule(q, bv(((1 << 64) - 1) // c)), ule(q, x)); st.ghost["ediv"] = {**d, k: (q, r, x)}; return q, r
        return d[k][0], d[k][1]
    def pat(self, t, x):
        """count of t in x with the facts used about it"""
        return self.G[t](x)
    def counts(self, st, a, ts=None):
        for t in ts or range(1, self.T):
            W, G = self.W[t], self.G[t]
            st.assume(W(bv(0)) == 0, Forall(lambda w, W=W, G=G: imp(ult(w, WL), And(W(w + 1) == W(w) + G(Sel(a, w)), ule(G(Sel(a, w)), self.per), ult(W(w), bv(1 << 37)), ult(W(w + 1), bv(1 << 37)))), f"w{t}", name="w"))

class MV:
    def __init__(self, k, ex, st, o):
        self.k = k; self.r, self.a, self.words = ex.vec(st, o, 0); self.ex, self.st, self.o = ex, st, o
    def val(self, q, s): return self.k.val(Sel(self.a, q), s)
    def tips(self, t):
        r = self.st.vecs.get((self.o.id, 24 * t)); k = self.k
        return r, self.ex.arr(self.st, r, 0, 64), self.ex.arr(self.st, r, ("sub", 8), 8), r.size
    def tip_ok(self, t, j):
        k = self.k; W = k.W[t]; r, L1, L2, n = self.tips(t); c = k.bpt
        F, WB = k.F(j), k.WB[t]
        return imp(ult(j, WL), And(imp(ult(F, self.words), And(ult(j, n), Sel(L1, j) == WB[0](j))), *[imp(ult(F + o, self.words), zx(Sel(L2, sub_index(j, bv(o)))) == WB[o](j) - WB[0](j)) for o in range(c)]))

def tipreg(k, name, n): 
    st = -(-(8 + k.bpt) // 8) * 8
    return Region(name, "array", stride=st, size=n, kinds=(), subs=((8, k.bpt, 1),))
class VL(VecLib):
    def __init__(self, k): super().__init__(name=lambda p: "bits"); self.k = k
    def resize(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]
        if "RankTip" not in d: return super().resize(ex, st, ins, args)
        p, n = args[0], args[1]; self.guard(ex, st, n, "resize"); o = p.o.const()
        if o is None: o = ex.unique(st, p.o.bv()); p = Ptr(p.r, Lin(o))
        old = st.vecs.get((p.r.id, o)); r = tipreg(self.k, f"tips{o // 24}", n)      # contents after a resize left unspecified
        st.mem[(r.id, 0, 64)] = fresh_arr("L1", 64); st.mem[(r.id, ("sub", 8), 8)] = fresh_arr("L2", 8)
        self.bind(ex, st, p, r, n, old); return None

def make(k, ex, st):
    o = ex.new_struct("mbv", 24 + 24 * k.T); n = z3.BitVec("words", 64); st.assume(ult(n, WL)); ex.make_vec(st, o, 0, "bits", 8, n, kinds=())
    for t in range(k.T):
        m = z3.BitVec(f"ntips{t}", 64); st.assume(ult(m, WL)); r = tipreg(k, f"tips{t}", m)
        st.mem[(r.id, 0, 64)] = fresh_arr("L1", 64); st.mem[(r.id, ("sub", 8), 8)] = fresh_arr("L2", 8); ex.bind_vec(st, o, 24 + 24 * t, r, m)
    st.ghost.update(o=o); return o
def tips_index(t): return t          # tips of symbol t are at slot t-1, i.e. offset 24 + 24*(t-1) = 24*t

def unit(U):
    k = K(U)
    def op(fn, title, args, pre, post, loops=()):
        def req(ex, st):
            o = make(k, ex, st); vs = [z3.BitVec(x, 8 if x == "x" else 64) for x in args]; st.ghost["args"] = vs
            if "i" in args: k.at(st, vs[0]); st.assume(ult(vs[0], bv(1 << 35)))
            st.assume(*pre(MV(k, ex, st, o), *vs)); return [Ptr(o)] + vs
        def ens(ex, p, st, r):
            o = st.ghost["o"]
            for x in post(MV(k, ex, p, o), MV(k, ex, st, o), r, *st.ghost["args"]): yield x
        return Spec(fn, req, ens, loops=loops, title=f"{title} (U={U})", div=k.div, mul=k.mul, ceil=k.ceil)
    def allslots(v, f): return Forall(lambda q, s: imp(And(ult(q, v.words), ult(s, k.per)), v.val(q, s) == f(q, s)), [("wq", "bits"), "s"], name="q")
    same = lambda o, v: And(v.words == o.words, v.a == o.a)
    S = [op("w_get", "operator[]", ["i"], lambda v, i: [ult(k.Q(i), v.words)], lambda o, v, r, i: [("the symbol at the index", zx(r) == o.val(k.Q(i), k.S(i))), ("unchanged", same(o, v))])]
    def setpost(o, v, r, i, x):
        q, s = k.Q(i), k.S(i)
        yield "grows exactly when needed", v.words == z3.If(ult(q, o.words), o.words, q + 1)
        yield "exactly the addressed symbol changes, new symbols are zero", allslots(v, lambda q2, s2: z3.If(And(q2 == q, s2 == s), zx(x), z3.If(ult(q2, o.words), o.val(q2, s2), bv(0))))
    S.append(op("w_set", "set", ["i", "x"], lambda v, i, x: [ult(x, k.T) if False else ule(x, bv(k.T - 1, 8))], setpost))
    grown = lambda o, v, w: [("length", v.words == w), ("existing symbols kept, new ones zero", allslots(v, lambda q, s: z3.If(ult(q, o.words), o.val(q, s), bv(0))))]
    S.append(op("w_resize", "resize", ["i"], lambda v, i: [], lambda o, v, r, i: grown(o, v, k.Q(i) + 1)))
    S.append(op("w_check", "ResizeCheck", ["i"], lambda v, i: [], lambda o, v, r, i: grown(o, v, z3.If(ult(k.Q(i), o.words), o.words, k.Q(i) + 1))))
    # ---- rank, one contract per symbol
    def rank(t):
        def pre(v, i):
            k.counts(v.st, v.a, [t]); q, s = k.Q(i), k.S(i); b, o = k.euclid(v.st, q, k.bpt); v.st.assume(k.link(t, b), q == k.F(b) + o); v.st.term(f"w{t}", q)
            return [ult(q, v.words), v.val(q, s) == t, v.tip_ok(t, b), *[v.tip_ok(t, b)], k.G[t](bv(0)) == 0, ule(k.G[t](k.low(Sel(v.a, q), s)), k.per)]
        def post(o, v, r, i):
            q, s = k.Q(i), k.S(i)
            o.st.assume(); x = k.low(Sel(o.a, q), s)
            b, rem = k.euclid(v.st, q, k.bpt)
            for n in range(k.bpt): yield f"number of earlier positions with the same symbol, word {n} of the block", imp(rem == n, r == k.WB[t][n](b) + k.G[t](x))
            yield "number of earlier positions with the same symbol", imp(Or(*[And(rem == n, r == k.WB[t][n](b) + k.G[t](x)) for n in range(k.bpt)]), r == k.W[t](q) + k.G[t](x))
            yield "unchanged", same(o, v)
        return op("w_rank", f"rank of symbol {t}", ["i"], pre, post)
    S += [rank(t) for t in range(1, k.T)]
    # ---- build
    def loops(ex, blk, n, only):
        if n == 0:
            def inv(L):
                st = L.st; v = MV(k, ex, st, st.ghost["o"]); i = L.v("i"); nt = L.v("num_types"); q, s = k.at(st, i); st.assume(k.nxt(i)); k.at(st, i + 1)
                yield "counter", And(ule(i, v.words * k.per), nt >= 0, nt <= k.T)
                yield "symbols seen so far are below num_types", Forall(lambda q2, s2: imp(And(Or(ult(q2, q), And(q2 == q, ult(s2, s))), ult(s2, k.per)), ult(v.val(q2, s2), sx(nt))), ["wq0", "s0"], name="q")
            def seen(st, L):
                v = MV(k, ex, st, st.ghost["o"]); nt = L.v("num_types")
                f = lambda a, b: Forall(lambda q, s: imp(And(ult(q, v.words), ult(s, k.per)), ult(v.val(q, s), sx(nt))), [a, b], name="q")
                ex.oblige(st, "every symbol is below num_types", f("wq0", "s0")); st.terms = {k_: d for k_, d in st.terms.items() if k_ not in ("wq0", "s0", "wq", "s")}; st.assume(f("wq", "s"))
            return Loop("find the largest symbol", inv, lambda L: MV(k, ex, L.st, L.st.ghost["o"]).words * k.per - L.v("i"), roles={"i": 64, "num_types": 32}, after=seen)
        if n == 1: return Loop("symbols", unroll=k.T)
        if n == 3:
            def inv(L):
                st = L.st; g = st.ghost; v = MV(k, ex, st, g["o"]); i = g["bi"]; o = ex.rw(st, sx(L.v("offset"))); c = k.bpt; t = g["t"]; W = k.W[t]; r, L1, L2, m = v.tips(t)
                L2e = ex.arr(L.e.st, L.e.st.vecs[(g["o"].id, 24 * t)], ("sub", 8), 8); F, WB = k.F(i), k.WB[t]; e = F + o; (st.term(f"w{t}", e), st.term(f"w{t}", z3.simplify(e - 1))) if t == only else None
                yield "counter", And(L.v("offset") >= 0, ule(o, c))
                if t != only: return
                yield "running count", L.v("count") == z3.If(ule(e, v.words), W(e), W(v.words))
                ent = lambda q, w: imp(ult(w, v.words), zx(Sel(L2, sub_index(i, q))) == W(w) - W(F))
                yield "last entry", imp(o != 0, ent(o - 1, z3.simplify(e - 1)))
                for q in range(c - 1): yield f"entry {q}", imp(ult(bv(q + 1), o), imp(ult(F + q, v.words), zx(Sel(L2, sub_index(i, bv(q)))) == WB[q](i) - WB[0](i)))
                yield "differences fit", imp(ule(e, v.words), And(ule(W(F), W(e)), ule(W(e) - W(F), o * k.per)))
                yield "other blocks untouched", Forall(lambda j: imp(And(ult(j, WL), j != i), And(*[Sel(L2, sub_index(j, bv(q))) == Sel(L2e, sub_index(j, bv(q))) for q in range(c)])), f"blk{t}", name="j")
            def cut(L):
                if L.st.ghost["t"] != only: return
                F = k.F(L.st.ghost["bi"]); o = L.v("offset")
                for x in (z3.Extract(31, 0, F) + o, o + z3.Extract(31, 0, F)): ex.rewrite(L.st, "index of the word", sx(x), F + sx(o)); break
                ex.rewrite(L.st, "next index of the word", sx(o + 1), sx(o) + 1)
            return Loop("fill one block", inv, lambda L: bv(k.bpt) - sx(L.v("offset")), roles={"offset": 32, "count": 64}, terms=cut)
        def inv(L):
            st = L.st; g = st.ghost; v = MV(k, ex, st, g["o"]); i = sx(L.v("i")); c = k.bpt; cnt = L.v("count")
            t = g["t"] = cur(st); W = k.W[t]; r, L1, L2, m = v.tips(t)
            F = k.F(i)
            st.assume(k.Ff(i), k.Ff(m), k.mono(i, m), F(bv(0)) == 0 if False else k.F(bv(0)) == 0)
            if t == only: st.assume(k.link(t, i)); st.term(f"w{t}", F)
            yield "block counter", And(L.v("i") >= 0, ule(i, m), ult(m, bv(1 << 29)), ule(v.words, k.F(m)), imp(v.words != 0, ult(k.F(m - 1), v.words)))
            if t != only: return
            yield "running count", cnt == z3.If(ule(F, v.words), W(F), W(v.words))
            last = sx(z3.simplify(L.v("i") - 1))
            yield "last finished block", imp(i != 0, v.tip_ok(t, last))
            yield "earlier blocks", Forall(lambda j: (imp(And(ult(j, i), j != last), v.tip_ok(t, j)), []), f"blk{t}", name="j")
        def cur(st):
            # the symbol whose table is being filled: the last rank table that was (re)allocated
            ids_ = [(st.vecs[(st.ghost["o"].id, 24 * t)].id, t) for t in range(1, k.T)]
            return max(ids_)[1]
        def terms(L):
            st = L.st; st.terms = {k_: d for k_, d in st.terms.items() if k_ not in ("wq", "s")}; i = sx(L.v("i")); st.term(f"blk{st.ghost['t']}", i); st.ghost["bi"] = i
        return Loop("fill the count table", inv, lambda L: MV(k, ex, L.st, L.st.ghost["o"]).tips(L.st.ghost["t"])[3] - sx(L.v("i")), roles={"i": 32, "count": 64}, terms=terms)
    def build(t):
        def post(o, v, r):
            yield "symbols unchanged", same(o, v)
            yield f"count table of symbol {t} exact if it occurs", Forall(lambda q, s, j: (imp(And(ult(q, o.words), ult(s, k.per), o.val(q, s) == t), v.tip_ok(t, j)), [(None, k.link(t, j)), (None, k.mono(j, v.tips(t)[3]))]), ["wq", "s", f"blk{t}"], name="q")
        def pre(v): k.counts(v.st, v.a, [t]); v.st.ghost["only"] = t; return []
        return op("w_build", f"build: count table of symbol {t}", [], pre, post, loops=lambda ex, blk, n: loops(ex, blk, n, t))
    if U < 3: S += [build(t) for t in range(1, k.T)]
    def pat(p):
        def m(ex, st, ins, args):
            x = z3.simplify(args[0]); y = z3.simplify(~x); r = k.G[p](x); st.assume(r == k.G[k.T - 1 - p](y), ule(r, k.per)); return r
        m.label = f"bit_util pattern count {p:0{U}b} (proved under B04)"; return m
    names = {1: [(r"bit_util::popcnt<unsigned long>\(", 1)], 2: [(r"bit_util::popcnt11\(", 3), (r"bit_util::popcnt10\(", 2)], 3: [(r"bit_util::popcnt111\(", 7), (r"bit_util::popcnt110\(", 6), (r"bit_util::popcnt101\(", 5), (r"bit_util::popcnt100\(", 4)]}[U]
    return dict(tu="multibit.cpp", defs=[f"-DUNIT={U}"], keep=KEEP_VEC + [r"bit_util::popcnt"], specs=S, models=[(re.compile(n), pat(p)) for n, p in names] + VL(k).models() + THROW)

def grp(k, x, t, n=None): return bits_sum([z3.Extract(k.U * j + k.U - 1, k.U * j, x) == bv(t, k.U) for j in range(k.per if n is None else n)])
def lemmas():
    out = []; x, q, s, i, B_, o = z3.BitVecs("x q s i B o", 64)
    for U in (1, 2, 3):
        k = K(U); T = f" (U={U})"
        for t in range(k.T):
            out.append((f"count of {t} is the count of its complement in the complemented word" + T, [], grp(k, x, t) == grp(k, ~x, k.T - 1 - t), "bv"))
            if t: 
                out.append((f"no {t} in a zero word; at most per" + T, [], And(grp(k, bv(0), t) == 0, ule(grp(k, x, t), k.per)), "bv"))
                out.append((f"count of {t}: one more slot" + T, [], [grp(k, k.low(x, bv(n + 1)), t) == grp(k, k.low(x, bv(n)), t) + z3.If(k.val(x, bv(n)) == t, bv(1), bv(0)) for n in range(k.per)], "bv"))
                out.append((f"count of {t}: all slots" + T, [], grp(k, k.low(x, bv(k.per)), t) == grp(k, x, t), "bv"))
        c = k.bpt; j, n = z3.BitVecs("j n", 64); small = [ult(i, WL + 1), ult(j, WL + 1)]
        out.append(("first word of a block" + T, small, And(ult(i * c, bv(1 << 36)), ule(i, i * c), (i + 1) * c == i * c + c, imp(ult(i * c, WL), ule(i, bv((1 << 30) // c))))))
        out.append(("blocks are ordered" + T, small, And(ult(i, j) == ult(i * c, j * c), imp(ult(i, j), ule(i * c + c, j * c)))))
        out.append(("number of blocks" + T, [ult(n, WL), n + o == c * q, ult(o, c), ule(q, bv((1 << 48) // c + 1))], And(ult(q, WL), ule(q, n), ule(n, q * c), imp(n != 0, And(ule(1, q), ult((q - 1) * c, n))), imp(n == 0, q == 0))))
        out.append(("next position" + T, [i == k.per * q + s, ult(s, k.per), ule(q, bv((1 << 64) // k.per)), ult(i, bv(1 << 40))], z3.If(s + 1 == k.per, i + 1 == k.per * (q + 1), And(i + 1 == k.per * q + (s + 1), ult(s + 1, k.per)))))
        out.append(("offset in the word" + T, [i == k.per * q + s, ult(s, k.per), ult(q, bv(1 << 50))], And(i * U == (k.per * U) * q + s * U, ult(s * U, k.per * U))))
        out.append(("block of a position is the block of its word" + T, [i == k.per * q + s, ult(s, k.per), q == k.bpt * B_ + o, ult(o, k.bpt), ult(B_, bv(1 << 50))], And(i == (k.per * k.bpt) * B_ + (k.per * o + s), ult(k.per * o + s, k.per * k.bpt))))
    return out
def units(): return [unit(1), unit(2), unit(3)]
