"""Minimal-width computations (calc.hpp)."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B23.cpp"
LEVEL = "proof"
NOTE = "Unit counts are proved minimal and terminating for every value; the level split (dynamic program, chain extraction, separator merging) is proved to return positive widths that sum to the bit width of the largest value with at most max_levels entries, for every list; std::vector, std::vector<bool> and std::sort are trusted contracts, floating-point costs are arbitrary values."
ASSUMPTIONS = ["lists shorter than 2^40", "max_levels >= 1", "SizeFitsAsList: widths between 1 and 63 that cover the value", "floating-point arithmetic in additional_bit_size_of_rank is treated as an arbitrary number"]
And, Or, ult, ule, lsr, Sel, Not = z3.And, z3.Or, z3.ULT, z3.ULE, z3.LShR, z3.Select, z3.Not
B = z3.BitVecSort(64); A64 = z3.ArraySort(B, B); A8 = z3.ArraySort(B, z3.BitVecSort(8))
LIM = bv(1 << 40)
SUM = z3.Function("sum", A64, B, B)        # sum of the first k elements
CNT = z3.Function("trues", A8, B, B)       # number of true among the first k elements
def sum_step(a, k): return And(SUM(a, bv(0)) == 0, SUM(a, k + 1) == SUM(a, k) + Sel(a, k))
def sum_store(a, i, v, k): """elements below k <= i are not affected by a write at i""";  return imp(ule(k, i), SUM(z3.Store(a, i, v), k) == SUM(a, k))
def writes(a, lem, k):
    """lemma instances for every write on top of the array term"""
    out = []
    while z3.is_store(a): out.append(lem(a.arg(0), a.arg(1), a.arg(2), k)); a = a.arg(0)
    return out
def one(x): return z3.If(x != 0, bv(1), bv(0))
def cnt_step(a, k): return And(CNT(a, bv(0)) == 0, CNT(a, k + 1) == CNT(a, k) + one(Sel(a, k)))
def cnt_store(a, i, v, k): return CNT(z3.Store(a, i, v), k) == CNT(a, k) + z3.If(ult(i, k), one(v) - one(Sel(a, i)), bv(0))

def lemmas():
    a, b = z3.Const("a", A64), z3.Const("b", A64); c = z3.Const("c", A8); i, k, v = z3.BitVecs("i k v", 64); w = z3.BitVec("w8", 8)
    s = z3.Store(a, i, v); t = z3.Store(c, i, w); top = bv((1 << 64) - 1)
    return [("sum below a write, base", [sum_step(a, k), sum_step(s, k)], SUM(s, bv(0)) == SUM(a, bv(0))),
            ("sum below a write, induction", [sum_step(a, k), sum_step(s, k), sum_store(a, i, v, k), k != top], sum_store(a, i, v, k + 1)),
            ("sums of equal prefixes, induction", [sum_step(a, k), sum_step(b, k), SUM(a, k) == SUM(b, k), Sel(a, k) == Sel(b, k)], SUM(a, k + 1) == SUM(b, k + 1)),
            ("count after a write, base", [cnt_step(c, k), cnt_step(t, k)], cnt_store(c, i, w, bv(0))),
            ("count after a write, induction", [cnt_step(c, k), cnt_step(t, k), cnt_store(c, i, w, k), k != top], cnt_store(c, i, w, k + 1)),
            ("partial sums of widths are monotone, induction", [sum_step(a, k), ule(k, 64), ule(SUM(a, i), SUM(a, k)), ule(SUM(a, k), 64 * k), ule(Sel(a, k), 64)], And(ule(SUM(a, i), SUM(a, k + 1)), ule(SUM(a, k + 1), 64 * (k + 1)))),
            ("no trues, induction", [cnt_step(c, k), CNT(c, k) == 0, Sel(c, k) == 0], CNT(c, k + 1) == 0)]

# ---------------------------------------------------------------- unit counts
def fits(v, s, u):
    """s units of u bits cover the value (s, u <= 64 or the product overflows 64 anyway)"""
    return Or(z3.UGE(s * u, 64), lsr(v, s * u) == 0)
def units_spec(fn, unit, title):
    def req(ex, st):
        v = z3.BitVec("value", 64); u = z3.BitVec("unit", 64) if unit is None else bv(unit); st.ghost.update(v=v, u=u)
        if unit is None: st.assume(ule(1, u), ule(u, LIM)); return [v, u]
        return [v]
    def loops(ex, blk, n):
        def inv(L):
            s = L.v("size"); v, u = L.st.ghost["v"], L.st.ghost["u"]
            yield "size is positive and bounded", And(ule(1, s), ule(s, 64), Or(s == 1, ult((s - 1) * u, 64)), Or(s == 1, ule(u, 64)))
            yield "fewer units do not cover the value", Or(s == 1, lsr(v, (s - 1) * u) != 0)
        return Loop("count units", inv, lambda L: bv(65) - L.v("size"), roles={"size": 64})
    def ens(ex, pre, st, r):
        v, u = st.ghost["v"], st.ghost["u"]
        yield "positive", And(ule(1, r), ule(r, 64))
        yield "covers the value", fits(v, r, u)
        yield "smallest", Or(r == 1, And(ult((r - 1) * u, 64), lsr(v, (r - 1) * u) != 0))
    return Spec(fn, req, ens, loops=loops, title=title)

V = z3.Function("shifted", B, B)            # value after removing the first k widths
def list_spec():
    def req(ex, st):
        v = z3.BitVec("value", 64); so = ex.new_struct("s", 24); n, n0 = z3.BitVecs("n n0", 64); st.assume(ult(n, LIM), ule(1, n0), ule(n0, n))
        s = ex.make_vec(st, so, 0, "widths", 8, n); a = ex.arr(st, s)
        st.assume(V(bv(0)) == v, V(n0) == 0)
        st.assume(Forall(lambda k: imp(ult(k, n), And(ule(1, Sel(a, k)), ule(Sel(a, k), 63), V(k + 1) == lsr(V(k), Sel(a, k)))), "widths"))
        st.assume(Forall(lambda k: imp(And(ule(n0, k), ule(k, n)), V(k) == 0), "widths"))      # lemma: zero stays zero
        st.ghost.update(v=v, a=a, n=n, n0=n0); return [v, Ptr(so)]
    def loops(ex, blk, n):
        def inv(L):
            s, v = L.v("size"), L.v("value"); g = L.st.ghost; L.st.term("widths", s)
            yield "widths used so far", And(ult(s, g["n0"]), v == V(s))
            yield "not covered yet", Or(s == 0, V(s) != 0)
        return Loop("consume widths", inv, lambda L: L.st.ghost["n"] - L.v("size"), roles={"size": 64, "value": 64})
    def ens(ex, pre, st, r):
        g = st.ghost
        yield "positive and within the list", And(ule(1, r), ule(r, g["n"]))
        yield "covers the value", V(r) == 0
        yield "smallest", Or(r == 1, V(r - 1) != 0)
    return Spec("w_list", req, ens, loops=loops, title="SizeFitsAsList")

# ---------------------------------------------------------------- lists of values
W = z3.Function("bits_of", B, B)
def m_bits(ex, st, ins, args):
    x = zx(args[0]); st.assume(And(ule(1, W(x)), ule(W(x), 64))); return W(x)
m_bits.label = "calc::SizeFitsInBits: between 1 and 64 (contract above)"
def list_in(ex, st, nonempty=False):
    so = ex.new_struct("a", 24); n = z3.BitVec("n", 64); st.assume(ult(n, LIM)); s = ex.make_vec(st, so, 0, "src", 8, n)
    ro = ex.new_struct("r", 24); st.ghost.update(src=s, n=n, ro=ro); rl = z3.BitVec("rlen", 64); st.assume(ult(rl, LIM)); ex.make_vec(st, ro, 0, "result", 8, rl)
    a = ex.arr(st, s)
    st.assume(Forall(lambda k: And(ule(1, W(Sel(a, k))), ule(W(Sel(a, k)), 64)), "src"))
    return so, ro
def is_width(ex, st, m):
    """m is the bit width of the largest element (0 for an empty list)"""
    g = st.ghost; a = ex.arr(st, g["src"]); n = g["n"]
    yield "no element is wider", Forall(lambda k: imp(ult(k, n), ule(W(Sel(a, k)), m)), "src")
    yield "some element is that wide", Or(And(n == 0, m == 0), And(ult(g["wit"], n), W(Sel(a, g["wit"])) == m))
def copy_loop(srcname, sums=False):
    """std::transform + back_inserter: result holds the elements before the cursor"""
    def mk():
        def inv(L):
            st = L.st; ex = L.ex; i = L.ix(srcname); r, ra, rl = ex.vec(st, st.ghost["ro"], 0); sr = L.ptrs(srcname)[0].r; sa = ex.arr(st, sr)
            st.term("res", i)
            yield "copied so far", And(rl == i, ule(i, sr.size))
            yield "equal elements", Forall(lambda k: imp(ult(k, i), Sel(ra, k) == Sel(sa, k)), "res")
            if sums:
                if hasattr(L, "h"): hi = L.h.ix(srcname); st.assume(sum_step(ra, hi), sum_step(sa, hi), writes(ra, sum_store, hi))
                else: st.assume(SUM(ra, bv(0)) == 0, SUM(sa, bv(0)) == 0)
                st.term("pos", rl)
                yield "equal sums", And(SUM(ra, rl) == SUM(sa, i), SUM(sa, sr.size) == st.ghost["mlen"])
                yield "positive sizes", Forall(lambda k: imp(ult(k, sr.size), ule(1, Sel(sa, k))), "pos")
        return Loop("copy to result", inv, lambda L: L.ptrs(srcname)[0].r.size - L.ix(srcname))
    return mk()
def name_at(pairs):
    def f(p):
        for k, v in pairs.items():
            if k in p.r.name: return v
        return None
    return f
def freq_spec(fn, cum):
    def req(ex, st): so, ro = list_in(ex, st); return [Ptr(so), Ptr(ro)]
    def loops(ex, blk, n):
        if not cum and n == 0:
            def inv(L):
                st = L.st; g = st.ghost; i, ms = L.v("i"), L.v("max_size"); a = ex.arr(st, g["src"]); mo = g["map"]; ml = ex.vec(st, mo, 0)[2]
                st.term("src", i)
                if L is L.e: st.ghost["wit"] = bv(0)
                else: w = g["wit"] = z3.If(And(ult(L.h.v("max_size"), ms)), L.h.v("i"), L.h.st.ghost["wit"]) if hasattr(L, "h") else fresh("wit"); st.term("src", w)
                w = g["wit"]
                yield "counter", ule(i, g["n"])
                yield "map has one counter per width", And(ml == ms, ule(ms, 64))
                yield "no earlier element is wider", Forall(lambda k: imp(ult(k, i), ule(W(Sel(a, k)), ms)), "src")
                yield "some earlier element is that wide", Or(And(i == 0, ms == 0), And(ult(w, i), W(Sel(a, w)) == ms))
            return Loop("count widths", inv, lambda L: L.st.ghost["n"] - L.v("i"), roles={"i": 64, "max_size": 64}, setup=lambda L: L.st.ghost.update(map=find_map(L.st)))
        if cum and n == 0:
            def inv(L):
                i = L.v("i"); yield "counter", ule(i, ex.vec(L.st, find_obj(L.st, "cf"), 0)[2]); yield "sizes", And(ex.vec(L.st, find_obj(L.st, "cf"), 0)[2] == L.st.ghost["mlen"], ex.vec(L.st, find_obj(L.st, "map"), 0)[2] == L.st.ghost["mlen"])
            return Loop("accumulate", inv, lambda L: L.v("i"), roles={"i": 64})
        return copy_loop("cf" if cum else "map")
    def ens(ex, pre, st, r):
        _, ra, rl = ex.vec(st, st.ghost["ro"], 0)
        if cum: yield "one entry per width", rl == st.ghost["mlen"]
        else:
            for x in is_width(ex, st, rl): yield x
    return Spec(fn, req, ens, loops=loops, title="cummulative_frequency_list" if cum else "bit_length_frequencies")
def find_obj(st, name):
    for (oid, off), r in st.vecs.items():
        if r.name == name or re.fullmatch(re.escape(name) + r"(\.\w+)*'*", r.name): return OBJ(oid)
    raise Unsupported(f"vector {name} not found")
class OBJ:
    def __init__(self, i): self.id = i
def find_map(st): return find_obj(st, "map")
def m_freq(ex, st, ins, args):
    """bit_length_frequencies / cummulative_frequency_list: one entry per width up to the widest element"""
    p = args[1]; n = fresh("mlen"); st.assume(ule(n, 64)); st.ghost["mlen"] = n; st.ghost["wit"] = fresh("wit"); st.term("src", st.ghost["wit"])
    g = st.ghost
    for _, f in is_width(ex, st, n): st.assume(f)
    old = st.vecs.get((p.r.id, p.o.const())); r = Region(old.name if old is not None else p.r.name, "array", stride=8, size=n); st.mem[(r.id, 0, 64)] = fresh_arr(r.name, 64)
    if old is not None: st.dead.add(old.id)
    ex.bind_vec(st, p.r, p.o.const(), r, n); return None
m_freq.label = "calc::bit_length_frequencies / cummulative_frequency_list (proved above)"
def m_cost(ex, st, ins, args): return fresh("cost")
m_cost.label = "additional_bit_size_of_rank (floating point): arbitrary value"

# ---- std::vector<bool> and std::sort (trusted)
def vb_ctor(ex, st, ins, args):
    p, n = args[0], args[1]; v = args[2]; x = ex.load(st, v, BYTE, "value") if isinstance(v, Ptr) else b2bv(v, 8)
    if z3.is_bool(x): x = b2bv(x, 8)
    r = Region("sep", "array", stride=1, size=n); st.mem[(r.id, 0, 8)] = z3.K(B, x); ex.bind_vec(st, p.r, p.o.const(), r, n); return None
class BYTE: kind = "int"; width = 8; size = 1
def vb_at(ex, st, ins, args): return Agg([Ptr(st.vecs[(args[0].r.id, args[0].o.const())], lin_of(z3.simplify(args[1]))), bv(1)])
def vb_size(ex, st, ins, args): return st.vecs[(args[0].r.id, args[0].o.const())].size
def vb_dtor(ex, st, ins, args): return None
def br_set(ex, st, ins, args):
    p = ex.cell(st, args[0].r, args[0].o.const(), ptr=True); ex.store(st, p, b2bv(args[1], 8) if z3.is_bool(args[1]) else args[1], BYTE, "vector<bool> element"); return args[0]
def br_get(ex, st, ins, args):
    p = ex.cell(st, args[0].r, args[0].o.const(), ptr=True); return ex.load(st, p, BYTE, "vector<bool> element") != 0
def m_sort(ex, st, ins, args):
    r = args[0].r; n = r.size; G = z3.Function(f"rank{fresh('g')}", B, B); F = z3.Function(f"orig{fresh('f')}", B, B)
    ex.safety(st, "sort: whole vector", And(ex.idx_of(st, args[0]) == 0, ex.idx_of(st, args[1]) == n))
    for off in (0, 8):
        old = ex.arr(st, r, off, 64); new = fresh_arr(r.name, 64)
        st.assume(Forall(lambda k, o=old, w=new: (imp(ult(k, n), And(ult(F(k), n), Sel(w, k) == Sel(o, F(k)), ult(G(k), n), Sel(w, G(k)) == Sel(o, k))), [("pq", F(k)), ("pq", G(k))]), "pq"))
        ex.set_arr(st, r, new, off, 64)
    st.ghost["G"] = G; return None
for f, l in ((vb_ctor, "std::vector<bool>"), (vb_at, "std::vector<bool>"), (vb_size, "std::vector<bool>"), (vb_dtor, "std::vector<bool>"), (br_set, "std::vector<bool>"), (br_get, "std::vector<bool>"), (m_sort, "std::sort: a permutation of the range")): f.label = l + " (trusted library contract)"
VB = r"^std::vector<bool, std::allocator<bool>>::"
SPLIT_MODELS = [(re.compile(VB + r"vector\("), vb_ctor), (re.compile(VB + r"operator\[\]"), vb_at), (re.compile(VB + r"size\("), vb_size), (re.compile(r"^std::(vector<bool, std::allocator<bool>>::~vector|_Bvector_base<.*>::(~_Bvector_base|_M_deallocate))"), vb_dtor), (re.compile(r"_Bit_reference::operator=\(bool"), br_set),
                (re.compile(r"_Bit_reference::operator bool"), br_get), (re.compile(r"^void std::sort<"), m_sort), (re.compile(r"cummulative_frequency_list"), m_freq), (re.compile(r"additional_bit_size"), m_cost)]

def split_spec():
    def req(ex, st):
        so, ro = list_in(ex, st); lv = z3.BitVec("max_levels", 64); st.assume(ule(1, lv), st.ghost["n"] != 0); st.ghost["lv"] = lv; return [Ptr(so), Ptr(ro), lv]
    vec = lambda ex, st, nm: ex.vec(st, find_obj(st, nm), 0)
    def dp(ex, st, t, m):
        """facts about the suffixes starting at u >= t+1 (t may be -1 as a 64-bit value)"""
        _, l, ll = vec(ex, st, "l"); _, b, bl = vec(ex, st, "b"); _, s, sl = vec(ex, st, "s"); M = m + 1
        yield "table sizes", And(ll == M, bl == M, sl == M, vec(ex, st, "cf")[2] == M)
        yield "every later start has a chain to the end", Forall(lambda u: (imp(And(t < u, ule(u, m)), And(ule(1, Sel(b, u)), ule(Sel(b, u), M - u), ule(1, Sel(l, u)), ule(Sel(l, u), M - u),
            Sel(l, u) == z3.If(u + Sel(b, u) == M, bv(1), Sel(l, u + Sel(b, u)) + 1))), [("u", u + Sel(b, u))]), "u", name="u")
    def loops(ex, blk, n):
        G = lambda L: (L.st.ghost, L.st.ghost["mlen"] - 1); n = [0, 2, 3, 4, 5, 6, 7, 1][n] if n < 8 else 99
        if n == 0:
            def inv(L):
                t = sx(L.v("t")); g, m = G(L); L.st.term("u", t); L.st.term("u", t + 1)
                yield "start position", And(t >= -1, t <= m)
                for x in dp(ex, L.st, t, m): yield x
            return Loop("choose splits", inv, lambda L: sx(L.v("t")) + 2, roles={"t": 32})
        if n == 1:
            def inv(L):
                i, mp, ms = L.v("i"), L.v("min_pos"), L.v("min_size"); g, m = G(L); i0 = L.e.v("i")
                L.st.term("u", mp); L.st.term("u", i)
                yield "candidate range", And(ule(i0, i), ule(i, m + 1))
                yield "best candidate is a later start", Or(ms == bv((1 << 64) - 1), And(ule(i0, mp), ule(mp, m)))
            return Loop("best next split", inv, lambda L: L.st.ghost["mlen"] - L.v("i"), roles={"i": 64, "min_pos": 64, "min_size": 64})
        if n == 2:
            def inv(L):
                st = L.st; k, t = L.v("k"), sx(L.v("t")); g, m = G(L); M = m + 1; _, l, _ = vec(ex, st, "l"); bk, ba, bl = vec(ex, st, "bk"); Lv = Sel(l, bv(0))
                st.term("u", t); st.term("u", bv(0)); st.term("pos", k); st.assume(sum_step(ba, k))
                if hasattr(L, "h"):
                    hb = vec(ex, L.h.st, "bk")[1]; hk = L.h.v("k"); st.assume(sum_step(ba, hk), writes(ba, sum_store, hk))
                for x in dp(ex, st, bv((1 << 64) - 1), m): yield x
                yield "number of widths", And(bl == Lv, ule(k, Lv), ule(Lv, M))
                yield "position", And(t >= 0, ule(t, M), Lv - k == z3.If(t == M, bv(0), Sel(l, t)))
                yield "widths sum to the position", SUM(ba, k) == t
                yield "widths are positive", Forall(lambda j: imp(ult(j, k), And(ule(1, Sel(ba, j)), ule(Sel(ba, j), 64))), "pos")
            return Loop("follow the chain", inv, lambda L: Sel(vec(ex, L.st, "l")[1], bv(0)) - L.v("k"), roles={"k": 64, "t": 32})
        if n == 3:
            def inv(L):
                st = L.st; p = sx(L.v("p")); i = L.ix("bk"); g, m = G(L); M = m + 1; bk, ba, bl = vec(ex, st, "bk"); _, sp, sl = vec(ex, st, "sep")
                st.assume(sum_step(ba, i), cnt_step(sp, bv(0))); st.term("pos", i); st.term("sepi", p)
                st.assume(mono_sum(ba, i, bl), mono_sum(ba, i + 1, bl))
                if hasattr(L, "h"):
                    hs = vec(ex, L.h.st, "sep")[1]; st.assume(writes(sp, cnt_store, sl))
                else: st.assume(imp(Forall_zero(sp, sl), CNT(sp, sl) == 0)) if L is L.e else None
                yield "cursor", And(ule(i, bl), sl == M + 1, p == SUM(ba, i), ule(p, M), SUM(ba, bl) == M)
                yield "separators so far", And(CNT(sp, sl) == i, imp(ult(bv(0), i), Sel(sp, p) != 0), Sel(sp, bv(0)) == 0)
                yield "none after the last", Forall(lambda q: imp(And(ult(p, q)), Sel(sp, q) == 0), "sepi")
            return Loop("mark separators", inv, lambda L: vec(ex, L.st, "bk")[2] - L.ix("bk"), roles={"p": 32})
        if n == 4:
            def inv(L):
                i = L.v("i"); g, m = G(L); r, _, pl = vec(ex, L.st, "pq"); sec = ex.arr(L.st, r, 8, 64); L.st.term("pq", i - 1)
                yield "counter", And(ule(1, i), ule(i, m + 1), pl == i - 1)
                yield "candidates so far", Forall(lambda k: imp(ult(k, i - 1), Sel(sec, k) == k + 1), "pq")
            return Loop("collect candidates", inv, lambda L: L.st.ghost["mlen"] - L.v("i"), roles={"i": 64})
        if n == 5:
            def inv(L):
                st = L.st; g, m = G(L); M = m + 1; ns = L.v("num_seps"); r, _, pl = vec(ex, st, "pq"); sec = ex.arr(st, r, 8, 64); _, sp, sl = vec(ex, st, "sep"); Gf = g["G"]
                st.term("pq", pl - 1); st.term("pq", Sel(sec, pl - 1) - 1); st.term("sepi", M); st.term("sepi", bv(0)); st.assume(cnt_step(sp, M))
                if hasattr(L, "h"):
                    hr, _, hl = vec(ex, L.h.st, "pq"); hsec = ex.arr(L.h.st, hr, 8, 64); hs = vec(ex, L.h.st, "sep")[1]; st.assume(writes(sp, cnt_store, sl))
                yield "sizes", And(ule(pl, m), sl == M + 1)
                yield "number of separators", And(ns == CNT(sp, sl), Sel(sp, M) != 0, Sel(sp, bv(0)) == 0)
                yield "candidates are inner positions", Forall(lambda k: imp(ult(k, pl), And(ule(1, Sel(sec, k)), ule(Sel(sec, k), m))), "pq")
                yield "every inner separator is still a candidate", Forall(lambda q: (imp(And(ule(1, q), ule(q, m), Sel(sp, q) != 0), And(ult(Gf(q - 1), pl), Sel(sec, Gf(q - 1)) == q)), [("pq", q - 1), ("pq", Gf(q - 1))]), "sepi")
            def after(st, L):
                g, m = st.ghost, st.ghost["mlen"] - 1; M = m + 1; _, sp, sl = vec(ex, st, "sep"); ns = L.v("num_seps")
                st.assume(cnt_step(sp, M))
                many = Not(ule(ns, g["lv"])); s2 = st.copy(); s2.assume(many)
                ex.oblige(s2, "on exit: without candidates no inner separator is left", Forall(lambda q: imp(ult(q, M), Sel(sp, q) == 0), "sepi"))
                st.assume(imp(many, CNT(sp, M) == 0))      # lemma: no trues
                ex.oblige(st, "on exit: few enough separators", ule(CNT(sp, sl), g["lv"])); st.assume(ule(CNT(sp, sl), g["lv"]))
            return Loop("merge levels", inv, lambda L: vec(ex, L.st, "pq")[2], roles={"num_seps": 64}, after=after)
        if n == 6:
            def inv(L):
                st = L.st; g, m = G(L); M = m + 1; lp = sx(L.v("last_p")); i = L.v("i"); bk, ba, bl = vec(ex, st, "bk"); _, sp, sl = vec(ex, st, "sep")
                st.term("pos", bl); st.assume(sum_step(ba, bl), cnt_step(sp, i))
                if hasattr(L, "h"):
                    hb, hba, hbl = vec(ex, L.h.st, "bk"); st.assume(sum_step(ba, hbl), writes(ba, sum_store, hbl))
                else: st.assume(SUM(ba, bv(0)) == 0)
                yield "cursor", And(ule(i, M + 1), sl == M + 1, bl == CNT(sp, i), ule(bl, i), lp >= 0, Or(And(i == 0, lp == 0), ult(lp, i)), imp(i == M + 1, lp == M))
                yield "widths sum to the last separator", SUM(ba, bl) == lp
                yield "widths are positive", Forall(lambda j: imp(ult(j, bl), And(ule(1, Sel(ba, j)), ule(Sel(ba, j), 64))), "pos")
            return Loop("rebuild widths", inv, lambda L: L.st.ghost["mlen"] + 1 - L.v("i"), roles={"last_p": 32, "i": 64})
        if n == 7: return copy_loop("bk", True)
    def ens(ex, pre, st, r):
        g = st.ghost; m = g["mlen"] - 1; _, ra, rl = ex.vec(st, g["ro"], 0)
        yield "at most the allowed number of levels, at least one", And(ule(1, rl), ule(rl, g["lv"]))
        yield "widths are positive", Forall(lambda j: (imp(ult(j, rl), ule(1, Sel(ra, j))), [("res", j), ("pos", j)]), "pos")
        yield "widths sum to the bit width of the largest value", SUM(ra, rl) == g["mlen"]
        for x in is_width(ex, st, g["mlen"]): yield x
    return Spec("w_split", req, ens, loops=loops, title="split_positions_optimized_for_dac")
def mono_sum(a, i, n): """lemma (positive widths): partial sums do not exceed the total""";  return imp(ule(i, n), ule(SUM(a, i), SUM(a, n)))
def Forall_zero(a, n): return a == z3.K(B, bv(0, 8))

def units():
    nm = {"map": "map", "cf": "cf", "bk": "bk", "pq": "pq"}
    def name(p):
        x = re.sub(r"\.i\d*$|\.\d+$", "", p.r.name)
        return {"s": "s", "l": "l", "b": "b"}.get(x, x)
    PAIR = {"std::pair<unsigned long, unsigned long>": (16, [(0, 64), (8, 64)])}
    L = VecLib(sizes=PAIR, name=name).models()
    return [dict(tu="calc.cpp", specs=[units_spec("w_units", None, "SizeFitsInUnits"), units_spec("w_bits", 1, "SizeFitsInBits"), units_spec("w_bytes", 8, "SizeFitsInBytes"), units_spec("w_fits4", 4, "size_fits<4>")]),
            dict(tu="calc.cpp", keep=KEEP_VEC, models=L, specs=[list_spec()]),
            dict(tu="calc.cpp", keep=KEEP_VEC + [r"SizeFitsInBits"], models=L + [(re.compile("SizeFitsInBits"), m_bits)], specs=[freq_spec("w_freq", False)]),
            dict(tu="calc.cpp", keep=KEEP_VEC + [r"bit_length_frequencies"], models=L + [(re.compile("bit_length_frequencies"), m_freq)], specs=[freq_spec("w_cum", True)]),
            dict(tu="calc.cpp", keep=KEEP_VEC + [r"cummulative_frequency_list", VB, r"^std::_Bvector_base", r"_Bit_reference::operator", r"^void std::sort<", r"additional_bit_size"], models=SPLIT_MODELS + L, specs=[split_spec()])]
