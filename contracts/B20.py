"""Suffix array.  L(a,b) = length of the longest common prefix of the suffixes at a and b (defined by lcp_def), LT(a,b) = suffix a is before suffix b.
The LCP construction is proved against a sorted permutation SA (rank RK); of the suffix sorting itself the building blocks are proved and the composition is run."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of, Agg, Lin
REPLAY = "B20.cpp"
LEVEL = "other"
SMOKE = 25
NOTE = "Proved for every string: the LCP array is exact given the sorted suffixes (Kasai's argument included), character translation, type classification, LMS positions, LMS-substring comparison, bucket borders and insertion. That induced sorting composes these into the sorted permutation is not proved: bounded, by comparing with the definition on all short strings over small alphabets and on random and repetitive ones."
ASSUMPTIONS = ["strings shorter than 2^31-1 bytes (int counters in the implementation)", "std::vector, std::vector<bool>, std::string are their contracts; FitVector is the array proved under B06", "the statistics printed by BuildLCP_ have no effect on the result (std::sort and the printing act on a copy)"]
BOUNDED = ["Sais_/InducedSort_/Induce_ (the result of induced sorting is the sorted permutation of the suffixes): every string of length <= 9 over 2 letters, <= 6 over 3 and <= 5 over 4, and random, periodic and Fibonacci strings of up to 2000 bytes, run against the definition"]
And, Or, Not, If, Sel, Sto = z3.And, z3.Or, z3.Not, z3.If, z3.Select, z3.Store
B = z3.BitVecSort(64); A64, A8 = z3.ArraySort(B, B), z3.ArraySort(B, z3.BitVecSort(8)); LIM = bv((1 << 31) - 1)
L = z3.Function("lcp_of", B, B, B)
def setg(ex, st, **k):
    for n, x in k.items(): st.ghost[n] = x; ex.wrote(("ghost", n))
def mx(a, b): return If(ule(a, b), b, a)
class Str:
    def __init__(s, S, n): s.S, s.n = S, n
    def at(s, i): return Sel(s.S, i)
    def ends(s, a, b): l = L(a, b); return imp(ule(mx(a, b), s.n), And(ule(l, s.n - mx(a, b)), Or(l == s.n - mx(a, b), s.at(a + l) != s.at(b + l))))
    def eq(s, a, b, t): return imp(And(ule(mx(a, b), s.n), ult(t, L(a, b))), s.at(a + t) == s.at(b + t))
    def define(s, a, b, *ts): return And(s.ends(a, b), *[s.eq(a, b, t) for t in ts])
    def LT(s, a, b): l = L(a, b); return And(ult(b + l, s.n), Or(a + l == s.n, ult(s.at(a + l), s.at(b + l))))
    def shift(s, a, b): return imp(And(ult(a, s.n), ult(b, s.n), L(a, b) != 0), L(a + 1, b + 1) == L(a, b) - 1)
    def anti(s, a, b): return imp(And(ule(a, s.n), ule(b, s.n), s.LT(a, b)), Not(s.LT(b, a)))
    def minl(s, a, k, b): return imp(And(ult(a, s.n), ult(k, s.n), ult(b, s.n), s.LT(a, k), s.LT(k, b)), ule(L(a, b), L(a, k)))
def obj(ex, st, low=None):
    o = ex.new_struct("sa", 128); n = z3.BitVec("n", 64); st.assume(ult(n, LIM)); r = ex.new_array(st, "str", 1, n, 8); st.ghost.update(o=o, str=r, s=Str(ex.arr(st, r, 0, 8), n), SA=z3.Const("SA", A64), RK=z3.Const("RK", A64)); return o
# ---- library models
def is_str(st, p):
    if p.r is not st.ghost["o"] or p.o.const() != 0: raise Unsupported("another string")
def s_size(ex, st, ins, args): is_str(st, args[0]); return st.ghost["s"].n
def s_at(ex, st, ins, args): is_str(st, args[0]); st.term("t", args[1]); return Ptr(st.ghost["str"], lin_of(z3.simplify(args[1])))
def s_empty(ex, st, ins, args): return st.ghost["s"].n == 0
def s_asg(ex, st, ins, args): setg(ex, st, copied=True); return args[0]
for f in (s_size, s_at, s_empty, s_asg): f.label = "std::string (trusted library contract)"
STR = [(re.compile(r"basic_string<.*>::size\("), s_size), (re.compile(r"basic_string<.*>::operator\[\]"), s_at), (re.compile(r"basic_string<.*>::empty"), s_empty), (re.compile(r"basic_string<.*>::operator=\("), s_asg)]
W8 = type("W8", (), dict(kind="int", width=8, size=1))
def vb_new(ex, st, ins, args):
    p, n = args[0], args[1]; r = Region("types", "array", stride=1, size=n, kinds=("i",)); st.mem[(r.id, 0, 8)] = z3.K(B, bv(0, 8)); ex.bind_vec(st, p.r, p.o.const(), r, n); return None
def vb_reg(st, p): return st.vecs[(p.r.id, p.o.const())]
def vb_size(ex, st, ins, args): return vb_reg(st, args[0]).size
def vb_at(ex, st, ins, args):
    r = vb_reg(st, args[0]); i = z3.simplify(args[1]); p = Ptr(r, lin_of(i)); st.term("i", i)
    return ex.load(st, p, W8, "vector<bool>[]") != 0 if "const" in ex.dem[ins.extra["callee"].name].rsplit(")", 1)[1] else Agg([p, bv(1)])
def br_set(ex, st, ins, args):
    p = ex.cell(st, args[0].r, args[0].o.const(), ptr=True); x = args[1]; x = If(x, bv(1, 8), bv(0, 8)) if z3.is_bool(x) else zx(x, 8); ex.store(st, p, z3.simplify(x), W8, "vector<bool>"); return args[0]
def br_get(ex, st, ins, args): return ex.load(st, ex.cell(st, args[0].r, args[0].o.const(), ptr=True), W8, "vector<bool>") != 0
for f in (vb_new, vb_size, vb_at, br_set, br_get): f.label = "std::vector<bool> (trusted library contract)"
VB = [(re.compile(r"std::vector<bool, .*>::vector\(unsigned long"), vb_new), (re.compile(r"std::vector<bool, .*>::size\("), vb_size), (re.compile(r"std::vector<bool, .*>::operator\[\]"), vb_at), (re.compile(r"_Bit_reference::operator=\(bool"), br_set), (re.compile(r"_Bit_reference::operator bool"), br_get)]
def fv_size(ex, st, ins, args): return st.ghost["s"].n
def fv_at(ex, st, ins, args):
    ref, p, i = args
    if p.r is not st.ghost["o"] or p.o.const() != 32: raise Unsupported("another FitVector")
    i = z3.simplify(i); ex.safety(st, "suffix array index in range", ult(i, st.ghost["s"].n)); st.mem[(ref.r.id, ref.o.const() + 8)] = i; ex.wrote((ref.r.id, ref.o.const() + 8)); st.term("p", i); st.term("i", Sel(st.ghost["SA"], i)); return None
def fv_get(ex, st, ins, args): return Sel(st.ghost["SA"], ex.cell(st, args[0].r, args[0].o.const() + 8))
def fv_new(ex, st, ins, args): r = st.vecs[(args[1].r.id, args[1].o.const())]; setg(ex, st, fit=(args[0].r, ex.arr(st, r), r.size)); return None
def fv_move(ex, st, ins, args):
    r, a, n = st.ghost["fit"]
    if args[1].r is not r or args[0].r is not st.ghost["o"]: raise Unsupported("another FitVector")
    setg(ex, st, **{f"member{args[0].o.const()}": (a, n)}); return args[0]
for f in (fv_size, fv_at, fv_get, fv_new, fv_move): f.label = "FitVector (proved under B06)"
FV = [(re.compile(r"FitVector::size\("), fv_size), (re.compile(r"FitVector::operator\[\]"), fv_at), (re.compile(r"BitsReference<.*FitVector>::operator unsigned long"), fv_get), (re.compile(r"FitVector::FitVector<"), fv_new), (re.compile(r"FitVector::operator=\("), fv_move), (re.compile(r"FitVector::~FitVector"), m_nop)]
LIB = VecLib(kinds=lambda p: ("i",), sizes={"sim_ds::SuffixArray::Bucket": (32, [(0, 64), (8, 64), (16, 64), (24, 64)])})
M = "sim_ds::SuffixArray::"
# ---- CompareLCP_
def cmp_spec():
    def req(ex, st): o = obj(ex, st); a, b, h = z3.BitVecs("li ri lcp", 64); s = st.ghost["s"]; st.assume(ult(a, s.n), ult(b, s.n), ule(h, L(a, b)), s.ends(a, b), Forall(lambda t: s.eq(a, b, t), "t", name="t")); st.ghost.update(a=a, b=b); return [Ptr(o), a, b, h]
    def loops(ex, blk, n):
        def inv(V):
            g = V.st.ghost; s, a, b = g["s"], g["a"], g["b"]; m = V.v("matches"); V.st.term("t", m); yield "so far everything matches", And(ule(m, L(a, b)), V.v("li") == a + m, V.v("ri") == b + m)
        return Loop("compare", inv, lambda V: L(V.st.ghost["a"], V.st.ghost["b"]) - V.v("matches"), roles={"matches": 64, "li": 64, "ri": 64})
    def ens(ex, p, st, r): yield "exact length of the common prefix", r == L(st.ghost["a"], st.ghost["b"])
    return Spec("re:" + M + r"CompareLCP_\(", req, ens, loops=loops, title="CompareLCP_", models=STR)
def skip(ex, st, i, b, h):
    """Kasai: the suffixes behind i-1 and its successor j are i and j+1, one character shorter in common, and b lies between them"""
    s, SA, RK = (st.ghost[k] for k in ("s", "SA", "RK")); n = s.n; ri = Sel(RK, i); r0 = Sel(RK, i - 1); j = Sel(SA, r0 + 1); rj = Sel(RK, j + 1); on = lambda *f: imp(h != 0, And(*f))
    lem = [s.shift(i - 1, j), s.anti(i, j + 1), s.minl(i, b, j + 1)]; st.assume(*lem)
    by(ex, st, "CompareLCP_: the prefix skipped is common", ule(h, L(i, b)), [ult(n, LIM), on(i != 0, ult(i, n), r0 != n - 1, L(i - 1, j) == h + 1), (on(ult(r0, n), Sel(SA, r0) == i - 1, ult(r0 + 1, n), ult(j, n), s.LT(i - 1, j)), {"only": 1, "p": [r0, r0 + 1], "i": [i - 1]}), lem[0], (on(ult(j + 1, n), L(i, j + 1) == h, s.LT(i, j + 1), i != j + 1), {"only": 1}),
        (on(ult(ri, n), Sel(SA, ri) == i, ult(rj, n), Sel(SA, rj) == j + 1), {"only": 1, "i": [i, j + 1]}), lem[1], (on(ult(ri, rj)), {"only": 1, "p": [ri, rj]}), (on(b == Sel(SA, ri + 1)), {"i": [i]}), (on(Or(b == j + 1, And(ult(b, n), s.LT(i, b), s.LT(b, j + 1)))), {"only": 1, "p": [ri, ri + 1, rj]}), lem[2]])
def m_cmp(ex, st, ins, args):
    s = st.ghost["s"]; a, b, h = args[1:]; ex.safety(st, "CompareLCP_: suffix positions", And(ult(a, s.n), ult(b, s.n))); skip(ex, st, a, b, h); st.assume(s.ends(a, b)); return L(a, b)
m_cmp.label = "CompareLCP_ (contract above)"
# ---- BuildLCP_
def perm(g):
    s, SA, RK = g["s"], g["SA"], g["RK"]; n = s.n
    yield "positions", Forall(lambda p: (imp(ult(p, n), And(ult(Sel(SA, p), n), Sel(RK, Sel(SA, p)) == p)), [("i", Sel(SA, p))]), "p", name="p")
    yield "ranks", Forall(lambda i: (imp(ult(i, n), And(ult(Sel(RK, i), n), Sel(SA, Sel(RK, i)) == i)), [("p", Sel(RK, i))]), "i", name="i")
    yield "sorted", Forall(lambda p, q: imp(And(ult(p, q), ult(q, n)), s.LT(Sel(SA, p), Sel(SA, q))), ["p", "p"], name="p")
def lcp_spec():
    def req(ex, st): o = obj(ex, st); st.assume(*[f for _, f in perm(st.ghost)]); return [Ptr(o)]
    def arr(V, k):
        st = V.st; rs = [(r.id, r) for (o, f), r in st.vecs.items() if f == 0 and o != st.ghost["o"].id]; rs = [r for _, r in sorted(rs, key=lambda x: x[0])]; return V.ex.arr(st, rs[k])
    def loops(ex, blk, n):
        def inv0(V):
            g = V.st.ghost; a = arr(V, 0); i = V.int(); V.st.term("p", i); yield "position", ule(i, g["s"].n); yield "ranks so far", Forall(lambda p: (imp(ult(p, i), Sel(a, Sel(g["SA"], p)) == p), [("i", Sel(g["SA"], p))]), "p", name="p")
        def inv1(V):
            st = V.st; g = st.ghost; s, SA, RK = g["s"], g["SA"], g["RK"]; n_ = s.n; i = V.int(); h = V.ints(32)[0]; pos, lc = arr(V, 0), arr(V, 1); st.term("i", i); st.term("i", i - 1); st.term("p", Sel(RK, i)); r0 = Sel(RK, i - 1); st.term("p", r0 + 1); j = Sel(SA, r0 + 1); st.term("i", j + 1); k = Sel(SA, Sel(RK, i) + 1); st.term("p", Sel(RK, i) + 1); st.term("p", Sel(RK, j + 1))
            st.assume(s.ends(i - 1, j), s.shift(i - 1, j), s.anti(i, j + 1), s.minl(i, k, j + 1), s.ends(i, k), imp(i == j + 1, L(i - 1, j) == n_ - i + 1) if False else z3.BoolVal(True))
            lv = lambda x: If(Sel(RK, x) == n_ - 1, bv(0), L(x, Sel(SA, Sel(RK, x) + 1)))
            yield "position", ule(i, n_); yield "ranks", Forall(lambda x: imp(ult(x, n_), Sel(pos, x) == Sel(RK, x)), "i", name="x")
            yield "LCP values so far", Forall(lambda x: imp(ult(x, i), Sel(lc, Sel(RK, x)) == lv(x)), "i", name="x")
            yield "previous LCP", And(h >= 0, sx(h) == If(i == 0, bv(0), lv(i - 1)))
        def triv(V): return []
        if n == 0: return Loop("ranks", inv0, lambda V: V.st.ghost["s"].n - V.int())
        if n == 1: return Loop("LCP of each suffix and its successor", inv1, lambda V: V.st.ghost["s"].n - V.int(), setup=lambda V: [V.st.assume(Forall(lambda x: V.st.ghost["s"].ends(x, Sel(V.st.ghost["SA"], Sel(V.st.ghost["RK"], x) + 1)), "i", name="x"))])
        return Loop("statistics", triv)
    def ens(ex, p, st, r):
        g = st.ghost; s, SA = g["s"], g["SA"]; a, n = g["member80"]; yield "one value per suffix", n == s.n; yield "LCP of adjacent suffixes", Forall(lambda p: (imp(ult(p, s.n), Sel(a, p) == If(p == s.n - 1, bv(0), L(Sel(SA, p), Sel(SA, p + 1)))), [("i", Sel(SA, p))]), "p", name="p")
    def cut(ex, st, ins, args): return []
    cut.label = "statistics printing: the path ends here, after the result is checked"
    def mv(ex, st, ins, args):
        r = fv_move(ex, st, ins, args)
        for l, f in ens(ex, None, st, None): ex.oblige(st, "result: " + l, f)
        return r
    mv.label = fv_move.label
    return Spec("re:" + M + r"BuildLCP_\(", req, ens, loops=loops, title="BuildLCP_", models=[(re.compile(M + r"CompareLCP_\("), m_cmp), (re.compile(r"void std::sort<"), cut), (re.compile(r"FitVector::operator=\("), mv)])
# ---- building blocks of the sorting
def vec_arg(ex, st, name, n, kinds="i"): o = ex.new_struct(name + "_v", 24); r = ex.make_vec(st, o, 0, name, 8, n, 64, kinds=kinds); return Ptr(o), ex.arr(st, r)
def cls_spec():
    def req(ex, st): n = z3.BitVec("len", 64); st.assume(n != 0, ult(n, bv(1 << 57))); p, a = vec_arg(ex, st, "text", n); out = ex.new_struct("out", 40); st.ghost.update(out=out, A=a, n=n); return [Ptr(out), Ptr(ex.new_struct("sa", 128)), p]
    def ty(A, T, n, i): return (Sel(T, i) != 0) == Or(i == n - 1, ult(Sel(A, i), Sel(A, i + 1)), And(Sel(A, i) == Sel(A, i + 1), Sel(T, i + 1) != 0))
    def loops(ex, blk, nn):
        def inv(V):
            g = V.st.ghost; i = V.int(); T = V.ex.arr(V.st, V.st.vecs[(g["out"].id, 0)]); V.st.term("i", i); V.st.term("i", i - 1); yield "position", ult(i, g["n"]); yield "types from here on", Forall(lambda x: (imp(And(ule(i, x), ult(x, g["n"])), ty(g["A"], T, g["n"], x))), "i", name="x")
        return Loop("classify from the right", inv, lambda V: V.int())
    def ens(ex, p, st, r):
        g = st.ghost; R = st.vecs[(g["out"].id, 0)]; T = ex.arr(st, R); yield "one type per position", R.size == g["n"]; yield "S exactly when smaller than the next suffix (character, then type of the next)", Forall(lambda x: imp(ult(x, g["n"]), ty(g["A"], T, g["n"], x)), "i", name="x")
    return Spec("re:" + M + r"Classified_\(", req, ens, loops=loops, title="Classified_", models=VB)
def types_arg(ex, st, n):
    o = ex.new_struct("types_v", 40); r = Region("types", "array", stride=1, size=n, kinds=("i",)); st.mem[(r.id, 0, 8)] = a = z3.Const("types", A8); ex.bind_vec(st, o, 0, r, n); return Ptr(o), a
def lms(T, i): return And(i != 0, Sel(T, i - 1) == 0, Sel(T, i) != 0)
def find_spec():
    def req(ex, st): n = z3.BitVec("len", 64); st.assume(n != 0, ult(n, bv(1 << 57))); p, T = types_arg(ex, st, n); out = ex.new_struct("out", 24); st.ghost.update(out=out, T=T, n=n, W=z3.Const("W", A64)); return [Ptr(out), Ptr(ex.new_struct("sa", 128)), p]
    def good(ex, st, i):
        g = st.ghost; R = st.vecs[(g["out"].id, 0)]; a = ex.arr(st, R); m = R.size; T = g["T"]; st.term("i", m - 1); st.term("i", m)
        yield "listed positions are LMS, in order", Forall(lambda k: (imp(ult(k, m), And(ult(Sel(a, k), i), lms(T, Sel(a, k)), imp(ult(k + 1, m), ult(Sel(a, k), Sel(a, k + 1))), Sel(g["W"], Sel(a, k)) == k)), [("i", k + 1)]), "i", name="k")
        yield "every LMS position is listed", Forall(lambda x: (imp(And(ult(x, i), lms(T, x)), And(ult(Sel(g["W"], x), m), Sel(a, Sel(g["W"], x)) == x)), [("i", Sel(g["W"], x))]), "i", name="x")
    def push(ex, st, ins, args):
        r = st.vecs[(args[0].r.id, 0)]; v = LIB.val(ex, st, "std::vector<unsigned long, ", args[1]) if False else ex.load(st, args[1], type("T", (), dict(kind="int", width=64, size=8)), "value"); setg(ex, st, W=Sto(st.ghost["W"], v, r.size)); st.term("i", r.size); st.term("i", v); return LIB.push(ex, st, ins, args)
    push.label = "std::vector::push_back (trusted library contract)"
    def loops(ex, blk, nn):
        def inv(V):
            g = V.st.ghost; i = pos(V); V.st.term("i", i); yield "position", And(i != 0, ule(i, g["n"])); yield "list fits", ult(V.st.vecs[(g["out"].id, 0)].size, i); yield from good(V.ex, V.st, i)
        def pos(V): return V.v("i") if V.has("i") else V.int()
        return Loop("scan", inv, lambda V: V.st.ghost["n"] - pos(V))
    def ens(ex, p, st, r): yield from good(ex, st, st.ghost["n"])
    return Spec("re:" + M + r"FindLMSs_\(", req, ens, loops=loops, title="FindLMSs_", models=VB + [(re.compile(VEC + r"push_back\("), push)])
def eq_spec():
    """len(i) = distance from LMS position i to the end of its substring (the next LMS position, or the end of the text)"""
    def req(ex, st):
        n = z3.BitVec("len", 64); st.assume(n != 0, ult(n, bv(1 << 57))); p, A = vec_arg(ex, st, "text", n); q, T = types_arg(ex, st, n); o = ex.new_struct("sa", 128); a, b, e = z3.BitVecs("li ri e", 64)
        st.assume(ult(a, n), ult(b, n), a != b, lms(T, a), lms(T, b), a != n - 1, b != n - 1, Sel(A, n - 1) == 0, Forall(lambda x: imp(ult(x, n - 1), Sel(A, x) != 0), "i", name="x"))
        # e = end of the substring of li: the first LMS position behind it (n-1 is one)
        st.assume(ult(a, e), ult(e, n), lms(T, e), Forall(lambda x: imp(And(ult(a, x), ult(x, e)), Not(lms(T, x))), "i", name="x"), lms(T, n - 1)); st.ghost.update(A=A, T=T, n=n, a=a, b=b, e=e); st.term("i", e); st.term("i", n - 1); st.term("i", a); st.term("i", b); return [Ptr(o), p, q, a, b]
    def loops(ex, blk, nn):
        def inv(V):
            g = V.st.ghost; A, T, a, b, e, n = (g[k] for k in ("A", "T", "a", "b", "e", "n")); li, ri = V.v("li"), V.v("ri"); c = V.v("curType"); k = li - a; V.st.term("i", li); V.st.term("i", ri); V.st.term("i", li - 1)
            yield "position", And(ule(a, li), ule(li, e), ule(b, ri), ult(ri, n), ri - b == k, ult(li, n)); V.st.term("d", k); g["at"] = (li, ri); yield "equal so far", Forall(lambda d: imp(ult(d, k), Sel(A, a + d) == Sel(A, b + d)), "d", name="d")
            yield "type of the character before", c == If(Or(li == a, Sel(T, li - 1) != 0), bv(1, 8), bv(0, 8))
        return Loop("compare", inv, lambda V: V.st.ghost["e"] + 1 - V.v("li"), roles={"li": 64, "ri": 64, "curType": 8})
    def ens(ex, p, st, r):
        g = st.ghost; A, a, b, e, n = (g[k] for k in ("A", "a", "b", "e", "n")); d = z3.BitVec("d", 64); st.term("d", d); li, ri = g["at"]
        yield "equal: all characters up to the end of the substring agree", imp(r, imp(ule(d, e - a), And(ult(b + d, n), ule(b, b + d), Sel(A, a + d) == Sel(A, b + d)))), None, [imp(r, li == e), And(ule(a, li), ule(b, ri), ult(ri, n), ri - b == li - a), imp(r, Sel(A, li) == Sel(A, ri)), imp(ult(d, li - a), Sel(A, a + d) == Sel(A, b + d))]
    return Spec("re:" + M + r"EqualLMSs_\(", req, ens, loops=loops, title="EqualLMSs_", models=VB)
def put_spec():
    def req(ex, st):
        o = ex.new_struct("sa", 128); nb, n, c, id = z3.BitVecs("nb n c id", 64); t = z3.Bool("sl"); bo = ex.new_struct("buckets_v", 24); r = ex.make_vec(st, bo, 0, "buckets", 32, nb, 64, kinds="i")
        for f in (0, 8, 16, 24): st.mem[(r.id, f, 64)] = z3.Const(f"bk{f}", A64)
        st.assume(ult(nb, bv(1 << 50)), ult(c, nb)); p, A = vec_arg(ex, st, "sarr", n); ix, ct, lp, sp = (Sel(ex.arr(st, r, f, 64), c) for f in (0, 8, 16, 24)); st.assume(ct != 0, ule(lp, sp), ult(sp, n), ult(n, LIM)); st.ghost.update(r=r, c=c, t=t, id=id, A=A, lp=lp, sp=sp, p=p, old={f: ex.arr(st, r, f, 64) for f in (0, 8, 16, 24)}); return [Ptr(o), Ptr(bo), p, t, c, id]
    def ens(ex, p, st, r):
        g = st.ghost; t, lp, sp, c = g["t"], g["lp"], g["sp"], g["c"]; a = ex.arr(st, g["p"].r and st.vecs[(g["p"].r.id, 0)]); pos = If(t, sp, lp); x = z3.BitVec("x", 64)
        yield "S-types go to the back, L-types to the front of the bucket", r == pos; yield "stored there, nothing else moves", Sel(a, x) == If(x == pos, g["id"], Sel(g["A"], x))
        n = {f: ex.arr(st, g["r"], f, 64) for f in (0, 8, 16, 24)}; yield "the bucket shrinks from that side", And(Sel(n[16], c) == If(t, lp, lp + 1), Sel(n[24], c) == If(t, sp - 1, sp)); yield "the other buckets stay", And(*[imp(Or(x != c, f < 16), Sel(n[f], x) == Sel(g["old"][f], x)) for f in n])
    return Spec("re:" + M + r"PutBucket_\(", req, ens, title="PutBucket_", models=[(re.compile(r"^abort$"), lambda ex, st, ins, args: (ex.safety(st, "the bucket has room", False), [])[1])])
CN = z3.Function("occurrences", B, B, B); CU = z3.Function("smaller", B, B)      # occurrences(c,k) of c among the first k characters; smaller(c) = number of characters below c
def mb_spec():
    def req(ex, st):
        o = ex.new_struct("sa", 128); n, mv = z3.BitVecs("len max", 64); st.assume(ult(n, LIM), ult(mv, bv(1 << 50))); p, A = vec_arg(ex, st, "text", n); bo = ex.new_struct("buckets_v", 24); r = ex.make_vec(st, bo, 0, "buckets", 32, bv(0), 64, kinds="c")
        for f in (0, 8, 16, 24): st.mem[(r.id, f, 64)] = z3.Const(f"bk{f}", A64)
        st.assume(Forall(lambda x: imp(ult(x, n), ule(Sel(A, x), mv)), "i", name="x"), Forall(lambda c: CN(c, bv(0)) == 0, "c", name="c"), CU(bv(0)) == 0, Forall(lambda c: And(CU(c + 1) == CU(c) + CN(c, n), imp(ule(c, mv + 1), ule(CU(c), n)), ule(CN(c, n), n)), "c", name="c")); st.ghost.update(A=A, n=n, mv=mv, bo=bo); return [Ptr(o), Ptr(bo), p, mv]
    def F(ex, st): R = st.vecs[(st.ghost["bo"].id, 0)]; return R, {f: ex.arr(st, R, f, 64) for f in (0, 8, 16, 24)}
    def loops(ex, blk, nn):
        def inv0(V):
            st = V.st; g = st.ghost; R, f = F(V.ex, st); k = V.ix("text"); st.term("i", k); c = Sel(g["A"], k); st.term("c", c); st.assume(Forall(lambda y: CN(y, k + 1) == CN(y, k) + If(y == Sel(g["A"], k), bv(1), bv(0)), "c", name="c")) if not hasattr(V, "h") else None
            yield "position", And(ule(k, g["n"]), R.size == g["mv"] + 1); yield "counts so far", Forall(lambda c: imp(ule(c, g["mv"]), Sel(f[8], c) == CN(c, k)), "c", name="c")
        def inv1(V):
            st = V.st; g = st.ghost; R, f = F(V.ex, st); k = V.ix("buckets"); st.term("c", k); st.term("c", k + 1); h = V.ints(32)[0]
            yield "position", And(ule(k, g["mv"] + 1), R.size == g["mv"] + 1, h >= 0, sx(h) == CU(k)); yield "counts", Forall(lambda c: imp(ule(c, g["mv"]), Sel(f[8], c) == CN(c, g["n"])), "c", name="c"); yield "borders so far", Forall(lambda c: imp(And(ule(c, g["mv"]), ult(c, k)), border(f, c, g["n"])), "c", name="c")
        return Loop("count", inv0, lambda V: V.st.ghost["n"] - V.ix("text")) if nn == 0 else Loop("borders", inv1, lambda V: V.st.ghost["mv"] + 1 - V.ix("buckets"))
    def border(f, c, n): return And(Sel(f[0], c) == CU(c), Sel(f[16], c) == CU(c), Sel(f[24], c) == CU(c) + CN(c, n) - 1)
    def ens(ex, p, st, r):
        g = st.ghost; R, f = F(ex, st); yield "one bucket per character", R.size == g["mv"] + 1; yield "each bucket has the size of its character's occurrences and starts behind the smaller ones", Forall(lambda c: imp(ule(c, g["mv"]), And(border(f, c, g["n"]), Sel(f[8], c) == CN(c, g["n"]))), "c", name="c")
    return Spec("re:" + M + r"MakeBuckets_\(", req, ens, loops=loops, title="MakeBuckets_")
def ss_spec():
    def req(ex, st): o = obj(ex, st); v = ex.new_struct("out", 24); ex.make_vec(st, v, 0, "text", 8, bv(0), 64, kinds="i"); st.ghost.update(v=v); return [Ptr(o), Ptr(v), Ptr(o)]
    def loops(ex, blk, nn):
        def inv(V):
            g = V.st.ghost; i = V.int(); _, a, m = V.ex.vec(V.st, g["v"], 0); V.st.term("i", i); yield "position", And(ule(i, g["s"].n), m == g["s"].n); yield "translated so far", Forall(lambda x: imp(ult(x, i), Sel(a, x) == zx(g["s"].at(x)) + 1), "i", name="x")
        return Loop("translate", inv, lambda V: V.st.ghost["s"].n - V.int())
    def ens(ex, p, st, r): g = st.ghost; yield from translated(ex, st, g["v"])
    return Spec("re:" + M + r"SaisStr_\(", req, ens, loops=loops, title="SaisStr_", models=STR)
def translated(ex, st, v): s = st.ghost["s"]; _, a, m = ex.vec(st, v, 0); yield "text and terminator", And(m == s.n + 1, Sel(a, s.n) == 0); yield "unsigned characters, above the terminator", Forall(lambda x: imp(ult(x, s.n), Sel(a, x) == zx(s.at(x)) + 1), "i", name="x")
def sa_spec():
    def req(ex, st): o = obj(ex, st); st.assume(*[f for _, f in perm(st.ghost)]); return [Ptr(o), Ptr(o)]
    def m_ss(ex, st, ins, args):
        v = args[1]; s = st.ghost["s"]; r = Region("text", "array", stride=8, size=z3.simplify(s.n + 1), kinds=("i",)); st.mem[(r.id, 0, 64)] = fresh_arr("text", 64); ex.bind_vec(st, v.r, v.o.const(), r, r.size); st.assume(*[f for _, f in translated(ex, st, v.r)]); return None
    m_ss.label = "SaisStr_ (contract above)"
    def m_sais(ex, st, ins, args):
        out, _, v, mv = args; s = st.ghost["s"]
        for l, f in translated(ex, st, v.r): ex.oblige(st, "Sais_: " + l, f)
        ex.safety(st, "Sais_: characters up to 256", mv == 0x100); r = Region("sorted", "array", stride=8, size=z3.simplify(s.n + 1), kinds=("p",)); st.mem[(r.id, 0, 64)] = a = fresh_arr("sorted", 64); ex.bind_vec(st, out.r, out.o.const(), r, r.size)
        st.assume(Sel(a, bv(0)) == s.n, Forall(lambda p: imp(ult(p, s.n), Sel(a, p + 1) == Sel(st.ghost["SA"], p)), "p", name="p")); return None
    m_sais.label = "Sais_ returns the sorted permutation of all suffixes, the terminator first (ASSUMED; bounded stand-in: replay)"
    def m_erase(ex, st, ins, args):
        v, at = args[0], args[1]; at = at if isinstance(at, Ptr) else at; old = st.vecs[(v.r.id, v.o.const())]; ex.safety(st, "erase: the first element", And(z3.BoolVal(at.r is old), ex.idx_of(st, at) == 0, old.size != 0)); a = ex.arr(st, old); r = Region("sorted", "array", stride=8, size=z3.simplify(old.size - 1), kinds=("p",)); st.mem[(r.id, 0, 64)] = b = fresh_arr("sorted", 64)
        st.assume(Forall(lambda p: imp(ult(p, r.size), Sel(b, p) == Sel(a, p + 1)), "p", name="p")); st.dead.add(old.id); ex.bind_vec(st, v.r, v.o.const(), r, r.size); return Ptr(r)
    m_erase.label = "std::vector::erase(begin) (trusted library contract)"
    def ens(ex, p, st, r):
        g = st.ghost; s = g["s"]; yield "the text is kept", g.get("copied") is True
        if "member32" in g: a, n = g["member32"]; yield "one entry per suffix", n == s.n; yield "the sorted suffixes, without the terminator", Forall(lambda p: imp(ult(p, s.n), Sel(a, p) == Sel(g["SA"], p)), "p", name="p")
        else: yield "nothing to sort", s.n == 0
    return Spec("re:" + M + r"BuildSA_\(", req, ens, title="BuildSA_", models=STR + [(re.compile(M + r"SaisStr_\("), m_ss), (re.compile(M + r"Sais_\("), m_sais), (re.compile(VEC + r"erase\("), m_erase)])
def lemmas():
    n = z3.BitVec("n", 64); s = Str(z3.Const("S", A8), n); a, b, k = z3.BitVecs("a b k", 64); m, l, q = L(a, b), L(a, k), L(k, b); H = [ult(n, LIM)]
    return [("the common prefix of the next suffixes is one shorter", H + [s.define(a, b, L(a + 1, b + 1) + 1), s.define(a + 1, b + 1, L(a, b) - 1)], s.shift(a, b)), ("the suffix order is antisymmetric", H + [s.define(a, b, L(b, a)), s.define(b, a, L(a, b))], s.anti(a, b)),
            ("a suffix between two others shares at least their common prefix", H + [s.define(a, b, l, q), s.define(a, k, q, m), s.define(k, b, l, m)], s.minl(a, k, b))]
def units():
    K = KEEP_VEC + [M + r"(BuildSA_|SaisStr_|MakeBuckets_|Classified_|FindLMSs_|EqualLMSs_|PutBucket_|Sais_|InducedSort_|Induce_|BuildLCP_|CompareLCP_)\(", r"std::vector<bool", r"std::_Bit_ref", r"FitVector::", r"BitsReference", r"basic_string<.*>::(operator|size|empty)", r"void std::sort<", VEC + r"erase\("]
    return [dict(tu="sufarr.cpp", keep=K, specs=[cmp_spec(), lcp_spec(), ss_spec(), cls_spec(), find_spec(), eq_spec(), put_spec(), mb_spec(), sa_spec()], models=FV + LIB.models() + THROW)]
