"""SAMC dictionary automaton.  Ghost state of a table: R(x) = cell x is a node, DP(x) = its depth, W(d,c) = a node showing that code(d,c) is in use.
in_trie(key) = every prefix of key is a node (reached from the root by adding codes) and the last one has a leaf: that is the key set of the table."""
from contracts.common import *
from contracts.vecs import *
from contracts.B01 import BVv, getbit, nwords
from contracts.B05 import m_ctz
from vc.engine import lin_of, Agg, Lin
REPLAY = "B21.cpp"
LEVEL = "other"
SMOKE = 20
NOTE = "Proved for every well-formed table and every string: accept and lookup say yes exactly to the strings stored in it (cells that merely look like the character 0xff included), ids are the ranks of the leaves and access returns the string of the leaf of that rank, so ids and keys are mutually inverse; the leaf bits; the placement search returns, for any cells, a free position that stays inside the bits it was given. That the constructor's loop over all levels composes these into a well-formed table for the given keys is bounded: run against the key set on random and edge-case dictionaries."
ASSUMPTIONS = ["tables of fewer than 2^32 cells (code_type), keys shorter than 2^40", "std::string, std::vector, std::upper_bound, std::min_element are their contracts; rank and select of the leaf bits are B02's and B03's contracts"]
BOUNDED = ["_SamcImpl(explorer) and string_array_explorer::for_each_edge (the built table is well-formed and stores exactly the keys): random and edge-case sorted key sets of up to 300 keys of up to 40 bytes over all bytes but NUL, both placement searches, every key, near-miss and random queries"]
And, Or, Not, If, Sel, Sto = z3.And, z3.Or, z3.Not, z3.If, z3.Select, z3.Store
B = z3.BitVecSort(64); A64, A8, AB = z3.ArraySort(B, B), z3.ArraySort(B, z3.BitVecSort(8)), z3.ArraySort(B, z3.BoolSort())
def setg(ex, st, **k):
    for n, x in k.items(): st.ghost[n] = x; ex.wrote(("ghost", n))
RK = z3.Function("leaves_before", B, B); SE = z3.Function("leaf_at", B, B)
class Tab:
    def __init__(t, ST, CT, HD, L, R, DP, W): t.ST, t.CT, t.HD, t.L, t.R, t.DP, t.W = ST, CT, HD, L, R, DP, W
    def head(t, d): return zx(Sel(t.HD, d))
    def at(t, d, c): return d * 256 + zx(c)
    def code(t, d, c): return zx(Sel(t.CT, t.at(d, c)))
    def chk(t, x): return Sel(t.ST, x)
    def real(t, x, d): return And(Sel(t.R, x), Sel(t.DP, x) == d)
    def size(t): return t.head(t.L + 1)
    def leaf(t, P, n): return Sel(P, n) + t.code(n, bv(0, 8))
    def step(t, P, K, q): return And(Sel(K, q) != 0, t.real(Sel(P, q + 1), q + 1), t.chk(Sel(P, q + 1)) == Sel(K, q))
    def isleaf(t, x, d): return And(t.real(x, d), t.chk(x) == 0)
    def sorted(t, d, e): return imp(And(ule(d, e), ule(e, t.L + 1)), ule(t.head(d), t.head(e)))
    def node(t, x):
        d = Sel(t.DP, x); k = t.code(d - 1, t.chk(x)); p = x - k
        return imp(Sel(t.R, x), And(ule(d, t.L), ule(t.head(d), x), ult(x, t.head(d + 1)), (x == 0) == (d == 0), imp(x != 0, And(ule(k, x), t.real(p, d - 1), t.chk(p) != 0)), imp(t.chk(x) != 0, ult(d, t.L))))
    def hole(t, x): return imp(And(ult(x, t.size()), Not(Sel(t.R, x))), t.chk(x) == 255)
    def used(t, k): w = Sel(t.W, k); return (imp(And(ult(k, t.L * 256), Sel(t.CT, k) != 0), And(t.real(w, z3.LShR(k, bv(8)) + 1), t.chk(w) == z3.Extract(7, 0, k))), [("x", w)])
def wf(t):
    yield And(t.L != 0, ult(t.L, bv(1 << 40)), t.head(bv(0)) == 0, t.head(bv(1)) == 1, t.real(bv(0), bv(0)), t.chk(bv(0)) != 0)
    yield Forall(t.sorted, ["d", "d"], name="d")
    yield Forall(lambda x: (t.node(x), [("d", Sel(t.DP, x)), ("d", Sel(t.DP, x) + 1)]), "x", name="x")
    yield Forall(t.hole, "x", name="x")
    yield Forall(t.used, "ch", name="k")
def obj(ex, st, dict_=False):
    o = ex.new_struct("samc", 160); L = z3.BitVec("levels", 64); hd = ex.make_vec(st, o, 48, "head", 4, z3.simplify(L + 2), 32, kinds="d"); HD = ex.arr(st, hd); n = zx(Sel(HD, L + 1)); s = ex.make_vec(st, o, 0, "cells", 1, n, 8, kinds="x"); c = ex.make_vec(st, o, 24, "codes", 4, L * 256, 32, kinds=())
    t = Tab(ex.arr(st, s), ex.arr(st, c), HD, L, z3.Const("R", AB), z3.Const("DP", A64), z3.Const("W", A64)); st.assume(*wf(t)); st.ghost.update(o=o, t=t); st.term("d", L + 1); st.term("d", bv(0)); st.term("d", bv(1)); st.term("x", bv(0)); return o
def chain(t, P, K, n):
    """P: the cells the key leads to (definition: P[0] = 0, each one code further)"""
    return [Sel(P, bv(0)) == 0, Forall(lambda q: imp(ult(q, n), Sel(P, q + 1) == Sel(P, q) + t.code(q, Sel(K, q))), "q", name="q")]
def walk_spec(fn, title, dict_):
    def req(ex, st):
        o = obj(ex, st); n = z3.BitVec("len", 64); st.assume(ult(n, bv(1 << 40))); k = ex.new_array(st, "key", 1, n, 8); K = ex.arr(st, k, 0, 8); P = z3.Const("P", A64); t = st.ghost["t"]; st.ghost.update(K=K, P=P, n=n); st.assume(*chain(t, P, K, n)); return [Ptr(o), Ptr(k), n]
    def loops(ex, blk, nn):
        def inv(V):
            st = V.st; g = st.ghost; t, P, K, n = g["t"], g["P"], g["K"], g["n"]; i = V.v("depth"); x = V.v("node"); g["at"] = i
            for q in (i, i - 1): st.term("q", q)
            for d in (i, i + 1, i + 2): st.term("d", d)
            c = Sel(K, i); y = x + t.code(i, c); w = Sel(t.W, t.at(i, c)); st.term("x", x); st.term("x", y); st.term("x", w); lf = x + t.code(i, bv(0, 8)); st.term("x", lf); st.term("d", Sel(t.DP, w)); st.term("d", Sel(t.DP, y)); st.term("d", Sel(t.DP, y) + 1); st.term("d", Sel(t.DP, lf)); st.term("d", Sel(t.DP, lf) + 1)
            st.term("ch", t.at(i, c))
            yield "position", And(ule(i, n), x == Sel(P, i), ult(i, t.L), ule(t.head(i), x), ult(x, t.head(i + 1)))
            yield "cells so far carry the key's characters", Forall(lambda q: imp(ult(q, i), And(Sel(K, q) != 0, t.chk(Sel(P, q + 1)) == Sel(K, q), ule(t.head(q + 1), Sel(P, q + 1)), ult(Sel(P, q + 1), t.head(q + 2)))), "q", name="q")
        return Loop("walk the key", inv, lambda V: V.st.ghost["n"] - V.v("depth"), roles={"node": 64, "depth": 64})
    def ens(ex, p, st, r):
        g = st.ghost; t, P, K, n, i = (g[k] for k in ("t", "P", "K", "n", "at")); lf = t.leaf(P, n); yes = r if not dict_ else r != bv((1 << 64) - 1); q0 = z3.BitVec("q0", 64); good = lambda q: t.real(Sel(P, q), q); D = Sel(t.DP, lf); nx = Sel(P, i + 1); st.terms = {}
        yes = yes if z3.is_expr(yes) else z3.BoolVal(yes); rng = lambda x, d: And(ule(t.head(d), x), ult(x, t.head(d + 1))); link = lambda q: imp(ult(q, n), Sel(P, q + 1) == Sel(P, q) + t.code(q, Sel(K, q))); nl = (t.node(lf), {"only": 1, "x": [lf]})
        by(ex, st, "ensures: no: some step of the key is not in the trie, or there is no leaf", imp(Not(yes), Or(And(ult(i, n), Not(t.step(P, K, i))), And(i == n, Not(t.isleaf(lf, n + 1))))),
            [(imp(Not(yes), Or(And(ult(i, n), Or(Sel(K, i) == 0, Not(rng(Sel(P, i) + t.code(i, Sel(K, i)), i + 1)), t.chk(Sel(P, i) + t.code(i, Sel(K, i))) != Sel(K, i))), And(i == n, Or(Not(rng(lf, n + 1)), t.chk(lf) != 0)))), {}), (link(i), {"only": 1, "q": [i]}), (t.node(nx), {"only": 1, "x": [nx]}), nl])
        by(ex, st, "ensures: yes: the key has a leaf", imp(yes, And(i == n, t.isleaf(lf, n + 1))),
            [(imp(yes, And(i == n, rng(lf, n + 1), t.chk(lf) == 0, ult(n, t.L), ult(t.L, bv(1 << 40)))), {}), (t.sorted(n + 2, t.L + 1), {"only": 1, "d": [n + 2, t.L + 1]}), (t.hole(lf), {"only": 1, "x": [lf]}), nl, (And(t.sorted(D + 1, n + 1), t.sorted(n + 2, D)), {"only": 1, "d": [D, D + 1, n + 1, n + 2]})])
        # q0 = the last prefix that is not a node, if there is one (well-foundedness)
        last = lambda q: imp(And(ule(q, n), Not(good(q))), And(ule(q0, n), Not(good(q0)), ule(q, q0))); sofar = lambda q: imp(ult(q, i), And(Sel(K, q) != 0, t.chk(Sel(P, q + 1)) == Sel(K, q))); st.assume(Forall(last, "q", name="q")); pq = Sel(P, q0 + 1)
        by(ex, st, "ensures: yes: the parent of every node on the way is the prefix before it", imp(yes, And(good(n), Not(And(ule(q0, n), Not(good(q0)))))),
            [(And(imp(yes, And(i == n, t.isleaf(lf, n + 1))), ult(n, bv(1 << 40))), {}), nl, (last(q0 + 1), {"only": 1, "q": [q0 + 1]}), (sofar(q0), {"only": 1, "q": [q0]}), (link(q0), {"only": 1, "q": [q0]}), (t.node(pq), {"only": 1, "x": [pq]})])
        yield "yes: every step of the key is in the trie", Forall(lambda q: (imp(And(yes, ult(q, n)), t.step(P, K, q)), [("q", q + 1)]), "q", name="q")
        if dict_: yield "the id is the rank of the leaf", imp(yes, r == RK(lf))
    return Spec(fn, req, ens, loops=loops, title=title, models=[(re.compile(r"SuccinctBitVector<true>::rank(_1)?\("), m_rank)])
def m_rank(ex, st, ins, args):
    p, i = args; g = st.ghost
    if p.r is not g["o"] or p.o.const() != 72: raise Unsupported("another bit vector")
    ex.safety(st, "rank within the bits", ule(i, g["t"].size())); st.assume(ule(RK(i), i)); return RK(i)
m_rank.label = "SuccinctBitVector::rank (proved under B02)"
# ---- access
def access_spec():
    def req(ex, st):
        o = obj(ex, st); v = z3.BitVec("id", 64); out = ex.new_struct("result", 32); t = st.ghost["t"]; lf = SE(v); D = Sel(t.DP, lf); Q = z3.Const("Q", A64); st.term("x", lf); st.assume(t.isleaf(lf, D), RK(lf) == v)      # v < number of leaves: B03's contract of select
        st.assume(Sel(Q, D) == lf, Forall(lambda d: imp(ult(d, D), Sel(Q, d) == Sel(Q, d + 1) - t.code(d, t.chk(Sel(Q, d + 1)))), "d", name="d")); st.term("d", D); st.term("d", D - 1); st.ghost.update(v=v, Q=Q, D=D, TX=z3.Const("TX", A8), TL=bv(0), out=out); return [Ptr(out), Ptr(o), v]
    def node(t, Q, D, d): x = Sel(Q, d); return imp(ule(d, D), And(t.real(x, d), (t.chk(x) == 0) == (d == D)))
    def loops(ex, blk, nn):
        def inv(V):
            st = V.st; g = st.ghost; t, Q, D = g["t"], g["Q"], g["D"]; x, d = V.v("node"), V.v("depth"); TX, TL = g["TX"], g["TL"]; st.term("d", d); st.term("d", d - 1); st.term("x", x); st.term("x", x - t.code(d - 1, t.chk(x))); st.term("j", TL)
            yield "position", And(ule(d, D), x == Sel(Q, d), TL == D - d); yield "nodes from here to the leaf", Forall(lambda e: (imp(ule(d, e), node(t, Q, D, e)), [("x", Sel(Q, e))]), "d", name="e")
            yield "their characters, last first", Forall(lambda j: (imp(ult(j, TL), Sel(TX, j) == t.chk(Sel(Q, D - j))), [("d", D - j)]), "j", name="j")
        return Loop("walk to the root", inv, lambda V: V.v("depth"), roles={"node": 64, "depth": 64})
    def ens(ex, p, st, r):
        g = st.ghost; t, Q, D = g["t"], g["Q"], g["D"]; res, n = g["RX"], g["RL"]; st.term("d", D); st.term("d", D - 1)
        yield "all but the leaf's character", n == D - 1; yield "starts at the root", Sel(Q, bv(0)) == 0
        yield "the string of the leaf: every step is in the trie", Forall(lambda q: (imp(ult(q, n), And(Sel(Q, q + 1) == Sel(Q, q) + t.code(q, Sel(res, q)), t.step(Q, res, q))), [("d", q), ("d", q + 1), ("j", D - 1 - q), ("x", Sel(Q, q + 1))]), "q", name="q")
        yield "and ends in the leaf of that rank", And(t.leaf(Q, n) == SE(g["v"]), t.isleaf(SE(g["v"]), n + 1), RK(SE(g["v"])) == g["v"])
    return Spec("w_access", req, ens, loops=loops, title="SamcDict::access", models=ACC)
def m_select(ex, st, ins, args):
    g = st.ghost
    if args[0].r is not g["o"] or args[0].o.const() != 72: raise Unsupported("another bit vector")
    return SE(args[1])
m_select.label = "SuccinctBitVector::select (proved under B03)"
def m_upper(ex, st, ins, args):
    a, b = args[0], args[1]; g = st.ghost; t = g["t"]; r = st.vecs[(g["o"].id, 48)]
    if a.r is not r or b.r is not r: raise Unsupported("upper_bound of another range")
    ex.safety(st, "upper_bound of the whole vector", And(ex.idx_of(st, a) == 0, ex.idx_of(st, b) == t.L + 2))
    x = ex.load(st, args[2], type("T", (), dict(kind="int", width=64, size=8)), "value"); h = fresh("upper", 64); st.assume(ule(h, t.L + 2), imp(h != 0, ule(t.head(h - 1), x)), imp(h != t.L + 2, ult(x, t.head(h)))); 
    for d in (h, h - 1, Sel(t.DP, x), Sel(t.DP, x) + 1): st.term("d", d)
    return Ptr(r, lin_of(h).mul(4))
m_upper.label = "std::upper_bound on a sorted range (trusted library contract)"
def s_ctor(ex, st, ins, args): setg(ex, st, TL=bv(0), txt=args[0]); return None
def s_own(st, p):
    if p.r is not st.ghost["txt"].r or p.o.const() != st.ghost["txt"].o.const(): raise Unsupported("another string")
def s_push(ex, st, ins, args): s_own(st, args[0]); g = st.ghost; st.term("j", g["TL"]); setg(ex, st, TX=Sto(g["TX"], g["TL"], args[1]), TL=z3.simplify(g["TL"] + 1)); return None
def rit(ex, st, out, i): st.mem[(out.r.id, out.o.const())] = i; ex.wrote((out.r.id, out.o.const()))
def s_rbegin(ex, st, ins, args): s_own(st, args[1]); rit(ex, st, args[0], st.ghost["TL"]); return None
def s_rend(ex, st, ins, args): s_own(st, args[1]); rit(ex, st, args[0], bv(0)); return None
def rit_of(ex, st, p): return ex.cell(st, p.r, p.o.const())
def s_minus(ex, st, ins, args): rit(ex, st, args[0], z3.simplify(rit_of(ex, st, args[1]) + args[2])); return None
def s_range(ex, st, ins, args):
    g = st.ghost; a, b = rit_of(ex, st, args[1]), rit_of(ex, st, args[2]); ex.safety(st, "reversed range", And(ule(b, a), ule(a, g["TL"]))); R = fresh_arr("reversed", 8); n = z3.simplify(a - b)
    st.assume(Forall(lambda q: (imp(ult(q, n), Sel(R, q) == Sel(g["TX"], a - 1 - q)), [("j", a - 1 - q)]), "q", name="q")); setg(ex, st, RX=R, RL=n); return None
for f in (s_ctor, s_push, s_rbegin, s_rend, s_minus, s_range): f.label = "std::string (trusted library contract)"
ACC = [(re.compile(r"SuccinctBitVector<true>::select\("), m_select), (re.compile(r"std::upper_bound<"), m_upper), (re.compile(r"basic_string<[^()]*>::basic_string\(\)"), s_ctor), (re.compile(r"basic_string<[^()]*>::push_back"), s_push), (re.compile(r"basic_string<[^()]*>::rbegin\("), s_rbegin), (re.compile(r"basic_string<[^()]*>::rend\("), s_rend),
       (re.compile(r"reverse_iterator<.*>::operator-\(long\)"), s_minus), (re.compile(r"basic_string<[^()]*>::basic_string<std::reverse_iterator"), s_range), (re.compile(r"basic_string<[^()]*>::~basic_string"), m_nop)]
# ---- leaf bits
W8 = type("W8", (), dict(kind="int", width=8, size=1))
def b_new(ex, st, ins, args):
    p, n = args; r = Region("bits", "array", stride=1, size=n, kinds=("x",)); st.mem[(r.id, 0, 8)] = z3.K(B, bv(0, 8)); ex.bind_vec(st, p.r, p.o.const(), r, n); return None
def b_at(ex, st, ins, args): i = z3.simplify(args[1]); st.term("x", i); return Agg([Ptr(st.vecs[(args[0].r.id, args[0].o.const())], lin_of(i)), bv(1)])
def br_set(ex, st, ins, args):
    p = ex.cell(st, args[0].r, args[0].o.const(), ptr=True); x = args[1]; x = If(x, bv(1, 8), bv(0, 8)) if z3.is_bool(x) else zx(x, 8); ex.store(st, p, z3.simplify(x), W8, "bit"); return args[0]
def sb_new(ex, st, ins, args): r = st.vecs[(args[1].r.id, args[1].o.const())]; st.ghost["sb"] = (args[0].r, ex.arr(st, r), r.size); return None
def sb_asg(ex, st, ins, args):
    if args[1].r is not st.ghost["sb"][0] or args[0].r is not st.ghost["o"] or args[0].o.const() != 72: raise Unsupported("another bit vector")
    st.ghost["leaves"] = st.ghost["sb"][1:]; return args[0]
for f, l in ((b_new, "BitVector(size): all zero (proved under B01)"), (b_at, "BitVector[] (proved under B01)"), (br_set, "BitVector element = bool (proved under B01)"), (sb_new, "SuccinctBitVector(bits) keeps the bits (proved under B02)"), (sb_asg, "SuccinctBitVector: move assignment (trusted, defaulted)")): f.label = l
BITS = [(re.compile(r"BitVector::operator\[\]"), b_at), (re.compile(r"BitReference<.*>::operator=\(bool"), br_set), (re.compile(r"BitVector::BitVector\(unsigned long"), b_new), (re.compile(r"SuccinctBitVector<true>::SuccinctBitVector\("), sb_new), (re.compile(r"SuccinctBitVector<true>::operator="), sb_asg), (re.compile(r"::~(SuccinctBitVector|_?BitVector)"), m_nop)]
def leaves_spec():
    def req(ex, st): o = ex.new_struct("dict", 160); n = z3.BitVec("n", 64); st.assume(ult(n, bv(1 << 40))); s = ex.make_vec(st, o, 0, "cells", 1, n, 8, kinds="x"); st.ghost.update(o=o, ST=ex.arr(st, s), n=n); return [Ptr(o)]
    def bits(ex, st): r = [r for (o, f), r in st.vecs.items() if r.name == "bits"][-1]; return ex.arr(st, r)
    def good(ST, b, x): return (Sel(b, x) != 0) == And(x != 0, Sel(ST, x) == 0)
    def loops(ex, blk, nn):
        def inv(V):
            g = V.st.ghost; i = V.int(); b = bits(V.ex, V.st); V.st.term("x", i); yield "position", And(i != 0, Or(i == 1, ule(i, g["n"]))); yield "bits so far", Forall(lambda x: And(imp(ult(x, i), good(g["ST"], b, x)), imp(ule(i, x), Sel(b, x) == 0)), "x", name="x")
        return Loop("mark the leaves", inv, lambda V: If(V.int() == 1, bv(1 << 50), V.st.ghost["n"] - V.int()))
    def ens(ex, p, st, r): g = st.ghost; b, n = g["leaves"]; yield "one bit per cell", n == g["n"]; yield "set exactly for leaves", Forall(lambda x: imp(ult(x, n), good(g["ST"], b, x)), "x", name="x")
    return Spec("re:_SamcDictImpl<unsigned int>::_setup_leaves", req, ens, loops=loops, title="_setup_leaves", models=BITS)
# ---- placement search
def m_min(ex, st, ins, args):
    a, b = args; g = st.ghost
    if a.r is not g["ids"] or b.r is not g["ids"]: raise Unsupported("min_element of another range")
    ex.safety(st, "min_element of all indices", And(ex.idx_of(st, a) == 0, ex.idx_of(st, b) == g["n"])); return Ptr(g["ids"], lin_of(g["M"]).mul(8))
m_min.label = "std::min_element (trusted library contract)"
def m_bit(ex, st, ins, args):
    i = z3.simplify(args[1]); v = BVv(ex, st, args[0].r); ex.safety(st, "bit in range", ult(i, v.n)); return Agg([Ptr(st.vecs[(args[0].r.id, 8)], lin_of(z3.LShR(i, bv(6))).mul(8)), bv(1) << (i & 63)])
m_bit.label = "BitVector[] const (proved under B01)"
def y_spec(fn, title, legacy):
    """mn = smallest index, h = height of the indices, H = a position from which all bits are free"""
    def req(ex, st):
        o = ex.new_struct("samc", 72); n, mn, h, H, M, N = z3.BitVecs("n mn h H M N", 64); io = ex.new_struct("indices_v", 24); r = ex.make_vec(st, io, 0, "ids", 8, n, 64, kinds="k"); A = ex.arr(st, r); e = ex.new_struct("empties", 32); st.mem[(e.id, 0)] = N; ex.make_vec(st, e, 8, "bits", 8, nwords(N), 64); v = BVv(ex, st, e)
        st.assume(n != 0, ult(n, bv(1 << 40)), ult(N, bv(1 << 40)), ult(mn, bv(1 << 40)), ule(H, N), ule(h, N), ule(H + h, N), h != 0, ult(M, n), Sel(A, M) == mn, Forall(lambda k: imp(ult(k, n), And(ule(mn, Sel(A, k)), ult(Sel(A, k) - mn, h))), "k", name="k"), Forall(lambda p: imp(And(ule(H, p), ult(p, N)), v.bit(p)), "p", name="p"))
        for k in (bv(0), n - 1, M): st.term("k", k)
        st.ghost.update(ids=r, A=A, n=n, mn=mn, h=h, H=H, M=M, N=N, v=v, jk=z3.BitVec("jk", 64)); return [Ptr(o), Ptr(io), Ptr(e)]
    def free(g, y, k): p = Sel(g["A"], k) - g["mn"] + y; return And(ult(p, g["N"]), g["v"].bit(p))
    def anyfree(g, y, k): p = Sel(g["A"], k) - g["mn"] + y; return And(ult(z3.LShR(p, bv(6)), nwords(g["N"])), g["v"].bit(p))
    def loops(ex, blk, nn):
        def outer(V):
            g = V.st.ghost; i = g["i"] = V.v("i"); yield "position", ule(i, z3.LShR(g["H"], bv(6)))
        def inner(V):
            st = V.st; g = st.ghost; c = V.v("candidates"); i = g["i"]; j = V.ix("ids"); st.term("k", j); st.term("p", Sel(g["A"], j) - g["mn"] + g["H"]); st.term("b", g["H"] & 63)
            yield "position", And(ule(j, g["n"]), ule(i, z3.LShR(g["H"], bv(6))))
            yield "every candidate bit is free for all indices so far", Forall(lambda b, k: imp(And(ult(b, bv(64)), ult(k, j), bit1(c, b)), anyfree(g, i * 64 + b, k)), ["b", "k"], name="bk")
            yield "the known free position stays a candidate", imp(i == z3.LShR(g["H"], bv(6)), bit1(c, g["H"] & 63))
        return (Loop("words", outer, lambda V: bv(1 << 41) - V.v("i"), roles={"i": 64}) if nn == 0 else Loop("indices", inner, lambda V: V.st.ghost["n"] - V.ix("ids"), roles={"candidates": 64}))
    def bit1(c, b): return z3.Extract(0, 0, z3.LShR(c, b)) == 1
    def lloops(ex, blk, nn):
        def outer(V):
            g = V.st.ghost; y = V.int() + g["mn"]; g["y"] = y; yield "position", ule(y, g["H"])
        def inner(V):
            st = V.st; g = st.ghost; j = V.ix("ids"); f = V.v("found") != 0; y = g["y"]; st.term("k", j); st.term("p", Sel(g["A"], j) - g["mn"] + y)
            yield "position", And(ule(j, g["n"]), ule(y, g["H"]), ule(V.v("found"), bv(1, 8))); yield "found: free for all indices so far", Forall(lambda k: imp(And(f, ult(k, j)), free(g, y, k)), "k", name="k"); yield "the known free position is found", imp(y == g["H"], f)
        return Loop("positions", outer, lambda V: bv(1 << 41) - (V.int() + V.st.ghost["mn"])) if nn == 0 else Loop("indices", inner, lambda V: V.st.ghost["n"] - V.ix("ids"), roles={"found": 8})
    def ens(ex, p, st, r):
        g = st.ghost; y = r + g["mn"]; st.term("b", y & 63); k = z3.BitVec("kk", 64); st.term("k", k); yield "a position no further than needed", ule(y, g["H"]); yield "every index moved by it is a free cell inside the bits", Forall(lambda k: imp(ult(k, g["n"]), free(g, y, k)), "k", name="k")
    return Spec(fn, req, ens, loops=lloops if legacy else loops, title=title, models=[(re.compile(r"std::min_element<"), m_min), (re.compile(r"BitVector::operator\[\]\(unsigned long\) const"), m_bit), (re.compile(r"bit_util::ctz\(unsigned long\)"), m_ctz)])
def lemmas():
    t = Tab(z3.Const("ST", A8), z3.Const("CT", z3.ArraySort(B, z3.BitVecSort(32))), None, None, z3.Const("R", AB), z3.Const("DP", A64), None); x, y, q = z3.BitVecs("x y q", 64); P, Q = z3.Const("P", A64), z3.Const("Q", A64); K, J = z3.Const("K", A8), z3.Const("J", A8)
    leaf = z3.Function("leaf", B, z3.BoolSort()); d = z3.BitVec("d", 64)
    step = lambda P, K: And(Sel(P, q + 1) == Sel(P, q) + t.code(q, Sel(K, q)), t.chk(Sel(P, q + 1)) == Sel(K, q))
    return [("one string per leaf: two strings that lead to the same node took the same step from the same node (induction over the length)", [step(P, K), step(Q, J), Sel(P, q + 1) == Sel(Q, q + 1)], And(Sel(K, q) == Sel(J, q), Sel(P, q) == Sel(Q, q))),
            ("ids are distinct: the rank grows behind every leaf (induction over the distance)", [ule(RK(x) + 1, RK(y)), ule(RK(y), RK(y + 1)), ult(RK(y), bv(1 << 57)), ult(RK(y + 1), bv(1 << 57))], ule(RK(x) + 1, RK(y + 1)))]
def units():
    K = KEEP_VEC + [r"std::__cxx11::basic_string<", r"std::upper_bound<", r"std::min_element<", r"SuccinctBitVector<true>::", r"BitVector::(operator\[\]|BitVector|~|resize)", r"BitReference<", r"y_check_(legacy_)?\([^()]*\) const$", r"_setup_leaves", r"bit_util::", r"for_each_edge"]
    lib = VecLib()
    return [dict(tu="samc.cpp", keep=K, specs=[walk_spec("w_accept_S", "Samc::accept", False), walk_spec("w_accept_L", "Samc<legacy>::accept", False), walk_spec("w_lookup", "SamcDict::lookup", True), access_spec(), leaves_spec(), y_spec("re:_SamcImpl<unsigned int, false>::y_check_\\([^()]*\\) const$", "y_check_", False), y_spec("re:_SamcImpl<unsigned int, true>::y_check_legacy_\\([^()]*\\) const$", "y_check_legacy_", True)], models=lib.models() + THROW)]
