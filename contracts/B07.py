"""Directly addressable code.  Level d stores bits [S(d), S(d)+w_d) of every element that reaches it (d = 0 or element >> S(d) != 0), in order;
C(d,i) = number of elements before position i that reach level d; path d marks which of them reach level d+1."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B07.cpp"
LEVEL = "proof"
NOTE = "The constructor (automatic and caller-supplied widths) is proved to give every level exactly the digits of the elements that reach it and every path the continuation bits, and operator[], at, front, back, iterators and depth to return the original values and level counts from that, for every length, number of levels and width; FitVector, bit vector append, bit access, rank and the level split are the contracts proved under B06, B01, B02 and B23."
ASSUMPTIONS = ["fewer than 2^40 elements and 2^16 levels", "caller-supplied widths are 1..64 and cover the largest value", "the level-count function C is defined by its recursion over positions, the shift function S by its recursion over levels; their relation to rank inside a path and their monotonicity are lemmas with discharged induction steps",
               "unsigned element types"]
And, Or, Not, ult, ule, Sel, If = z3.And, z3.Or, z3.Not, z3.ULT, z3.ULE, z3.Select, z3.If
B = z3.BitVecSort(64); Bo = z3.BoolSort(); lsr = z3.LShR; one = bv(1); NLIM = bv(1 << 40); MLIM = bv(1 << 16)
C = z3.Function("level_count", B, B, B); S = z3.Function("shift_of_level", B, B); W = z3.Function("width_of_level", B, B); R = z3.Function("path_rank", B, B, B)
Len = z3.Function("level_len", B, B); Dg = z3.Function("level_digit", B, B, B); Pb = z3.Function("path_bit", B, B, Bo)
NUM, UNITS, LAYERS, PATHS = 0, 8, 32, 56
S_FV, S_BV, S_SV = 48, 32, 80
def low(x, k): return x & If(ule(bv(64), k), bv((1 << 64) - 1), (one << k) - 1)
def high(x, k): return If(ule(bv(64), k), bv(0), lsr(x, k))
def reach(x, d): return Or(d == 0, high(x, S(d)) != 0)
def digit(x, d): return low(high(x, S(d)), W(d))
def sh(m, d):
    """the shifts: recursion at d (widths 1..64) and bound"""
    return And(S(bv(0)) == 0, imp(ult(d, m), And(S(d + 1) == S(d) + W(d), ule(1, W(d)), ule(W(d), 64))), imp(ule(d, m), ule(S(d), bv(1 << 24))))
def mono_s(m, d, e): return imp(And(ule(d, e), ule(e, m)), ule(S(d), S(e)))

# ---- queries
def link(g, d, i):
    m, n, x = g["m"], g["n"], g["val"](i); c = C(d, i)
    return imp(And(ult(d, m), ule(i, n)), And(ule(c, Len(d)), imp(d == 0, c == i), imp(ult(d + 1, m), And(C(d + 1, i) == R(d, c), ule(R(d, c), c))), sh(m, d), sh(m, d + 1),
               imp(And(ult(i, n), reach(x, d)), And(ult(c, Len(d)), Dg(d, c) == digit(x, d), imp(ult(d + 1, m), Pb(d, c) == reach(x, d + 1))))))
def make(ex, st, empty_ok=False):
    o = ex.new_struct("dac", 80); m, n = z3.BitVecs("levels n", 64); val = z3.Function("element", B, B)
    st.mem[(o.id, NUM)] = m; st.assume(ult(m, MLIM), ult(n, NLIM), (m == 0) == (n == 0)); st.ghost.update(o=o, m=m, n=n, val=val)
    ex.make_vec(st, o, UNITS, "units", 8, m, kinds=("lev",)); U = ex.vec(st, o, UNITS)[1]; st.assume(Forall(lambda d: imp(ult(d, m), Sel(U, d) == W(d)), "lev"))
    for off, nm, sd, sz in ((LAYERS, "layers", S_FV, m), (PATHS, "paths", S_SV, If(m == 0, bv(0), m - 1))): ex.bind_vec(st, o, off, Region(nm, "array", stride=sd, size=z3.simplify(sz), kinds=("lev",)), z3.simplify(sz))
    if not empty_ok: st.assume(n != 0)
    st.assume(imp(m != 0, Len(bv(0)) == n), sh(m, bv(0))); return o
def idx(ex, st, p, what):
    if p.r is None: raise Unsupported("element of an unknown vector")
    i = ex.idx_of(st, p); ex.safety(st, what + " in bounds", ult(i, p.r.size)); return i
def m_fget(ex, st, ins, args):
    d = idx(ex, st, args[1], "level"); ex.safety(st, "element index below the level length", ult(args[2], Len(d))); st.ghost["refs"] = {**st.ghost.get("refs", {}), args[0].r.id: Dg(d, args[2])}; return None
m_fget.label = "FitVector::operator[] const (proved under B06)"
def m_conv(ex, st, ins, args): return st.ghost["refs"][args[0].r.id]
m_conv.label = "BitsConstReference -> value (proved under B06)"
def m_fsize(ex, st, ins, args): return Len(idx(ex, st, args[0], "level"))
m_fsize.label = "FitVector::size"
def m_pget(ex, st, ins, args):
    d = idx(ex, st, args[0], "path"); ex.safety(st, "bit index below the path length", ult(args[1], Len(d))); return Pb(d, args[1])
m_pget.label = "SuccinctBitVector::operator[] (proved under B02)"
def m_rank(ex, st, ins, args):
    d = idx(ex, st, args[0], "path"); ex.safety(st, "rank position at most the path length", ule(args[1], Len(d))); return R(d, args[1])
m_rank.label = "SuccinctBitVector::rank (proved under B02)"
SV = r"sim_ds::SuccinctBitVector<false>::"
QM = [(re.compile(r"FitVector::operator\[\]"), m_fget), (re.compile(r"BitsConstReference<sim_ds::FitVector>::operator"), m_conv), (re.compile(r"FitVector::size\("), m_fsize), (re.compile(SV + r"operator\[\]"), m_pget), (re.compile(SV + r"rank(_1)?\("), m_rank)]
def m_elem(ex, st, ins, args):
    ex.safety(st, "operator[]: index below size()", ult(args[1], st.ghost["n"])); return st.ghost["val"](args[1])
m_elem.label = "DacVector::operator[] (contract above)"
EM = [(re.compile(r"DacVector::operator\[\]"), m_elem)]
def q(fn, title, args, pre, post, loops=(), empty=False, models=()):
    def req(ex, st):
        o = make(ex, st, empty); g = st.ghost; vs = []
        for a in args: v = g[a] = z3.BitVec(a, 64); vs.append(v)
        if "i" in args and "get" not in title: pass
        st.assume(*pre(g))
        if "i" in args: i = g["i"]; x = g["val"](i); st.assume(imp(ult(i, g["n"]), high(x, S(g["m"])) == 0), link(g, bv(0), i))
        return [Ptr(o)] + vs
    def ens(ex, p, st, r): yield from post(ex, p.ghost, st, r)
    return Spec(fn, req, ens, loops=loops, title=title, models=list(models))
def get_loop(ex, blk, n):
    def inv(L):
        st = L.st; g = st.ghost; d, i, m, x = L.v("depth"), g["i"], g["m"], g["val"](g["i"]); st.term("lev", d); st.term("lev", d - 1)
        st.assume(link(g, d, i), link(g, d - 1, i), sh(m, d), sh(m, d - 1))
        yield "level", And(ule(1, d), ule(d, m)); yield "element reaches the previous level", reach(x, d - 1)
        yield "position in the previous level", L.v("i") == C(d - 1, i)
        yield "shift = bits read", L.v("shift_bits") == S(d)
        yield "low bits of the element", L.v("value") == low(x, S(d))
    return Loop("collect the digits", inv, lambda L: L.st.ghost["m"] - L.v("depth"), roles={"depth": 64, "i": 64, "shift_bits": 64, "value": 64})
def depth_loop(ex, blk, n):
    def inv(L):
        st = L.st; g = st.ghost; d, i, m, x = L.v("depth"), g["i"], g["m"], g["val"](g["i"]); st.assume(link(g, d, i), sh(m, d))
        yield "level", ule(d, m - 1); yield "element reaches the level", reach(x, d); yield "position in the level", L.v("index") == C(d, i)
    return Loop("follow the path", inv, lambda L: L.st.ghost["m"] - L.v("depth"), roles={"depth": 64, "index": 64})
inb = lambda g: [ult(g["i"], g["n"])]; none = lambda g: []
val = lambda k: (lambda ex, g, st, r: [("the element", r == g["val"](k(g)))])
Q = [q(r"re:DacVector::operator\[\]", "operator[]", ["i"], inb, val(lambda g: g["i"]), get_loop),
     q("w_depth", "depth", ["i"], inb, lambda ex, g, st, r: [("extra levels the value needs", And(ult(r, g["m"]), reach(g["val"](g["i"]), r), Or(r == g["m"] - 1, Not(reach(g["val"](g["i"]), r + 1)))))], depth_loop),
     q("w_size", "size", [], none, lambda ex, g, st, r: [("number of elements", r == g["n"])], empty=True),
     q("w_empty", "empty", [], none, lambda ex, g, st, r: [("no elements", r == (g["n"] == 0))], empty=True)]
Q2 = [q("w_at", "at", ["i"], none, lambda ex, g, st, r: [("the element; out of range throws", And(ult(g["i"], g["n"]), r == g["val"](g["i"])))], empty=True), q("w_front", "front", [], none, val(lambda g: bv(0))), q("w_back", "back", [], none, val(lambda g: g["n"] - 1)),
      q("w_iter", "iterator dereference", ["i"], inb, val(lambda g: g["i"])), q("w_iterat", "iterator subscript", ["i"], inb, val(lambda g: g["i"])),
      q("w_span", "iterator distance", [], none, lambda ex, g, st, r: [("end - begin = size", r == g["n"])], empty=True), q("w_more", "iterator comparison", ["i"], none, lambda ex, g, st, r: [("differs from end unless at size", r == (g["i"] != g["n"]))], empty=True),
      q("w_next", "iterator steps", ["i"], inb, lambda ex, g, st, r: [("one step forward overall", r == g["i"] + 1)])]

# ---- construction
def key(d, p): return z3.Concat(z3.Extract(15, 0, d), z3.Extract(47, 0, p))
def creq(w, uw):
    def f(ex, st):
        o = ex.new_struct("dac", 80); v = ex.new_struct("vec", 24); n = z3.BitVec("n", 64); st.assume(ult(n, NLIM)); ex.make_vec(st, v, 0, "src", w // 8, n, kinds=("pos",)); g = st.ghost
        K0 = z3.K(B, bv(0)); g.update(o=o, v=v, n=n, LL=K0, PL=K0, LB=z3.Const("LB0", z3.ArraySort(B, B)), PB=z3.Const("PB0", z3.ArraySort(B, Bo)), PD=K0, A=ex.vec(st, v, 0)[1])
        if uw is None: g["m"] = None; return [Ptr(o), Ptr(v)]
        u = ex.new_struct("ul", 24); m = z3.BitVec("levels", 64); ex.make_vec(st, u, 0, "list", uw // 8, m, kinds=("lev",)); U = ex.vec(st, u, 0)[1]; st.assume(ule(1, m)); g["ul"] = u; layout(g, st, m, lambda d: zx(Sel(U, d)))
        return [Ptr(o), Ptr(v), Ptr(u)]
    return f
def layout(g, st, m, w):
    """m levels of widths w(d) covering every value; S, W are their shifts and widths"""
    g["m"] = m; A, n = g["A"], g["n"]; st.assume(ult(m, MLIM), sh(m, bv(0)), Forall(lambda d: (imp(ult(d, m), And(w(d) == W(d), ule(1, W(d)), ule(W(d), 64))), [(None, sh(m, d))]), "lev"), Forall(lambda k: imp(ult(k, n), high(zx(Sel(A, k)), S(m)) == 0), "pos"))
def m_split(ex, st, ins, args):
    g = st.ghost; p = args[1]; ex.safety(st, "level split of a non-empty list", g["n"] != 0); m = fresh("levels"); st.assume(ule(1, m), ule(m, 8))
    r = Region("units", "array", stride=8, size=m, kinds=("lev",)); st.mem[(r.id, 0, 64)] = fresh_arr("units", 64); ex.bind_vec(st, p.r, p.o.const(), r, m); U = st.mem[(r.id, 0, 64)]
    for k in range(3): ex.wrote((p.r.id, p.o.const() + 8 * k))
    layout(g, st, m, lambda d: Sel(U, d)); return None
m_split.label = "calc::split_positions_optimized_for_dac: at most 8 positive widths summing to the width of the largest value (proved under B23)"
def m_cf(ex, st, ins, args):
    p = args[1]; n = fresh("cf_len"); r = Region("cf", "array", stride=8, size=n); st.mem[(r.id, 0, 64)] = fresh_arr("cf", 64); st.assume(ult(n, MLIM)); ex.bind_vec(st, p.r, p.o.const(), r, n); return None
m_cf.label = "calc::cummulative_frequency_list (values only used as capacities)"
def m_layer(ex, st, ins, args):
    p = args[0]; g = st.ghost; old = st.vecs.get((p.r.id, p.o.const())); n = old.size if old is not None else bv(0)
    w = args[1]
    if isinstance(w, Ptr):
        class T: kind = "int"; width = 64; size = 8
        w = ex.load(st, w, T, "width argument")
    ex.safety(st, "level width matches the layout", And(ult(n, g["m"]), w == W(n))); ex.safety(st, "new level starts empty", Sel(g["LL"], n) == 0); st.term("lev", n)
    return grow(ex, st, p, "layers", S_FV, n, old)
def grow(ex, st, p, nm, sd, n, old):
    r = Region(nm, "array", stride=sd, size=z3.simplify(n + 1), kinds=("lev",)); 
    if old is not None: st.dead.add(old.id)
    ex.bind_vec(st, p.r, p.o.const(), r, r.size)
    for k in range(3): ex.wrote((p.r.id, p.o.const() + 8 * k))
    ex.wrote(("vec", p.r.id, p.o.const())); return Ptr(r, lin_of(n).mul(sd))
m_layer.label = "vector<FitVector>::emplace_back(width): appends an empty vector of that width"
def m_psrc(ex, st, ins, args):
    p = args[0]; r = Region("pathsrc", "array", stride=S_BV, size=args[1], kinds=("lev",)); ex.bind_vec(st, p.r, p.o.const(), r, args[1]); return None
m_psrc.label = "vector<BitVector>(n): n empty bit vectors"
def m_reserve(ex, st, ins, args): idx(ex, st, args[0], "reserved level"); return None
m_reserve.label = "reserve: contents unchanged (proved under B01/B06)"
def app(L, Bn):
    def m(ex, st, ins, args):
        d = idx(ex, st, args[0], "level"); g = st.ghost; n = Sel(g[L], d); x = args[1]
        if Bn == "PB": x = x if z3.is_bool(x) else z3.Extract(0, 0, x) == 1
        else: ex.safety(st, "digit fits the level width", low(x, W(d)) == x)
        g[Bn] = z3.Store(g[Bn], key(d, n), x); g[L] = z3.Store(g[L], d, n + 1); ex.wrote(("ghost", L)); ex.wrote(("ghost", Bn)); return None
    m.label = {"PB": "BitVector::push_back appends the bit (proved under B01)", "LB": "FitVector::push_back appends the value (proved under B06)"}[Bn]; return m
def m_path(ex, st, ins, args):
    p = args[0]; g = st.ghost; old = st.vecs.get((p.r.id, p.o.const())); n = old.size if old is not None else bv(0); s = idx(ex, st, args[1], "path source"); ex.safety(st, "built from a gathered path", z3.BoolVal(args[1].r.name == "pathsrc"))
    g["PD"] = z3.Store(g["PD"], n, s); ex.wrote(("ghost", "PD")); st.term("dst", n); return grow(ex, st, p, "paths", S_SV, n, old)
m_path.label = "vector<SuccinctBitVector>::emplace_back(BitVector&&): rank structure over those bits (proved under B02)"
def m_push_unit(ex, st, ins, args): return VecLib(name=lambda p: "units").push(ex, st, ins, args)
CM = [(re.compile(r"split_positions_optimized_for_dac<"), m_split), (re.compile(r"cummulative_frequency_list<"), m_cf), (re.compile(r"std::vector<sim_ds::FitVector.*emplace_back<"), m_layer), (re.compile(r"^std::vector<sim_ds::BitVector.*::vector\("), m_psrc),
      (re.compile(r"sim_ds::(FitVector|BitVector)::reserve\("), m_reserve), (re.compile(r"FitVector::push_back\("), app("LL", "LB")), (re.compile(r"BitVector::push_back\("), app("PL", "PB")), (re.compile(r"std::vector<sim_ds::SuccinctBitVector<false>.*emplace_back<sim_ds::BitVector>"), m_path)]
def defs(g, d, k):
    x = zx(Sel(g["A"], k)); m = g["m"]; return imp(And(ult(d, m), ult(k, g["n"])), And(C(d, k + 1) == C(d, k) + If(reach(x, d), one, bv(0)), ule(C(d, k), k), C(d, bv(0)) == 0))
def mono(g, d, k, i): return imp(And(ult(d, g["m"]), ult(k, i), ule(i, g["n"]), reach(zx(Sel(g["A"], k)), d)), And(ult(C(d, k), C(d, i)), ule(C(d, i), i)))
def state(g, i, lv=None, pv=None):
    """after the elements before i; with lv/pv, element i is already in the levels below lv and the paths below pv"""
    A, n, m = g["A"], g["n"], g["m"]; LL, LB, PL, PB = g["LL"], g["LB"], g["PL"], g["PB"]; x = lambda k: zx(Sel(A, k)); p1 = z3.simplify(i - 1)
    inn = lambda d, v: If(And(ult(d, v), reach(x(i), d)), one, bv(0)) if v is not None else bv(0)
    def lem(d, *ks):
        L = [(None, sh(m, d)), (None, sh(m, d + 1)), ("lev", d), (None, defs(g, d, i)), (None, defs(g, d, p1)), (None, imp(True, C(d, bv(0)) == 0))]
        for e in g.get("levs", ()): L += [(None, mono_s(m, d, e)), (None, mono_s(m, e, d)), (None, mono_s(m, d + 1, e)), (None, mono_s(m, e, d + 1))]
        for k in ks: L += [(None, mono(g, d, k, i)), (None, mono(g, d, k, p1)), (None, defs(g, d, k))]
        return L
    yield "every level has one digit per element that reaches it", Forall(lambda d: (imp(ult(d, m), Sel(LL, d) == C(d, i) + inn(d, lv)), lem(d)), "lev2", name="d")
    yield "every path has one bit per element of its level", Forall(lambda d: (imp(And(ult(d, m), ult(d + 1, m)), Sel(PL, d) == C(d, i) + inn(d, pv)), lem(d)), "lev2", name="d")
    cond = lambda d, k, v: And(ult(d, m), reach(x(k), d), Or(ult(k, i), And(k == i, ult(d, v)) if v is not None else False))
    yield "level digits are the digits of the elements that reach it", Forall(lambda d, k: (imp(cond(d, k, lv), Sel(LB, key(d, C(d, k))) == digit(x(k), d)), lem(d, k)), ["lev2", "pos"], name="y")
    yield "path bits mark the elements that go on", Forall(lambda d, k: (imp(And(ult(d + 1, m), cond(d, k, pv)), Sel(PB, key(d, C(d, k))) == reach(x(k), d + 1)), lem(d, k)), ["lev2", "pos"], name="y")
def U(ex, st): return ex.vec(st, st.ghost["o"], UNITS)
def units_ok(ex, st): 
    g = st.ghost; _, u, l = U(ex, st); return And(l == g["m"], ule(1, g["m"])), Forall(lambda d: imp(ult(d, l), Sel(u, d) == W(d)), "lev")
def role(ex, blk):
    """which loop is this: nesting first, then what it steps over"""
    if any(blk in b for h, b in ex.loops.items() if h is not blk): return "inner"
    if any(h in ex.loops[blk] for h in ex.loops if h is not blk): return "outer"
    return None
def cloops(ex, blk, n):
    r = role(ex, blk)
    if r is None: r = ["copy", "layers", "reserve", None, "paths", None][n] if n < 6 else None
    if r == "copy":
        def inv(L):
            st = L.st; g = st.ghost; i = L.ix("list"); st.term("lev", i); _, u, l = U(ex, st)
            yield "copied so far", And(ule(i, g["m"]), l == i)
            yield "widths copied", Forall(lambda d: imp(ult(d, i), Sel(u, d) == W(d)), "lev", name="d")
        return Loop("copy the widths", inv, lambda L: L.st.ghost["m"] - L.ix("list"))
    if r == "layers":
        def inv(L):
            st = L.st; g = st.ghost; i = L.ix("units"); st.term("lev", i)
            yield "one level per width", And(ule(i, g["m"]), ex.vec(st, g["o"], LAYERS)[0].size == i if (g["o"].id, LAYERS) in st.vecs else i == 0)
        return Loop("create the levels", inv, lambda L: L.st.ghost["m"] - L.ix("units"))
    if r == "reserve":
        return Loop("reserve the levels", lambda L: [("level", ule(L.v("i"), L.st.ghost["m"]))], lambda L: L.st.ghost["m"] - L.v("i"), roles={"i": 64})
    if r == "outer":
        def inv(L):
            st = L.st; g = st.ghost; i = L.ix("src"); st.terms.pop("lev2", None); st.term("pos", i); g["levs"] = ()
            yield "position", ule(i, g["n"])
            yield from state(g, i)
        return Loop("distribute the elements", inv, lambda L: L.st.ghost["n"] - L.ix("src"))
    if r == "inner":
        def inv(L):
            st = L.st; g = st.ghost; i = g["ci"]; d = L.v("depth"); m = g["m"]; x = zx(Sel(g["A"], i)); st.terms.pop("lev2", None); st.term("lev2", d); st.term("lev2", d - 1); g["levs"] = (d, z3.simplify(d - 1)); hd = getattr(L, "h", None)
            if hd is not None: e = hd.v("depth"); st.term("lev2", e); st.term("lev2", e - 1); g["levs"] += (e,)
            st.term("lev", d); st.term("lev", d - 1); st.assume(sh(m, d), sh(m, d - 1))
            yield "level", And(ule(1, d), ule(d, m), ult(i, g["n"])); yield "element reaches the previous level", reach(x, d - 1)
            yield "remaining bits", L.v("x") == high(x, S(d))
            yield from state(g, i, d, d - 1)
        def setup(L): L.st.ghost["ci"] = cur(L)
        def after(st, L): st.terms.pop("lev2", None)
        return Loop("split one element", inv, lambda L: L.st.ghost["m"] - L.v("depth"), roles={"depth": 64, "x": 64}, setup=setup)
    def inv(L):
        st = L.st; g = st.ghost; i = L.ix("pathsrc"); st.term("dst", i); PD = g["PD"]
        yield "one path per level boundary", And(ule(i, g["m"] - 1), ex.vec(st, g["o"], PATHS)[0].size == i if (g["o"].id, PATHS) in st.vecs else i == 0)
        yield "path j is built from the bits gathered for level j", Forall(lambda j: imp(ult(j, i), Sel(PD, j) == j), "dst", name="j")
    return Loop("build the paths", inv, lambda L: L.st.ghost["m"] - L.ix("pathsrc"))
def cur(L):
    for c in reversed(L.ex.lctx):
        if c.ls.name == "distribute the elements": return c.head.ix("src")
    raise Unsupported("no enclosing loop over the elements")
def cens(ex, p, st, r):
    g = st.ghost; o = g["o"]; n = g["n"]; num = ex.cell(st, o, NUM); m = g["m"]
    size = lambda off: st.vecs[(o.id, off)].size if (o.id, off) in st.vecs else bv(0)
    yield "empty input: no levels", imp(n == 0, And(num == 0, size(LAYERS) == 0, size(UNITS) == 0, size(PATHS) == 0))
    if m is None: return
    ne = st.copy(); st.assume(n != 0) if False else None
    if ex.quick(st, n == 0): return
    _, u, l = U(ex, st); PD = g["PD"]
    yield "number of levels", And(num == m, l == m, size(LAYERS) == m, size(PATHS) == m - 1)
    yield "widths recorded", Forall(lambda d: imp(ult(d, m), Sel(u, d) == W(d)), "lev", name="d")
    yield "path j is built from the bits gathered for level j", Forall(lambda j: imp(ult(j, m - 1), Sel(PD, j) == j), "dst", name="j")
    g["levs"] = (); st.terms.pop("lev2", None)
    yield from state(g, n)
def ctor(fn, w, uw, title): return Spec(fn, creq(w, uw), cens, loops=(lambda ex, blk, n: cloops(ex, blk, n)), title=title)
def units():
    K = KEEP_VEC + [r"FitVector::", SV, r"BitVector::(push_back|reserve)\(", r"cummulative_frequency_list<", r"split_positions_optimized_for_dac<", r"DacVector::operator\[\]", r"BitsConstReference<"]
    V = VecLib(sizes={"sim_ds::BitVector": (S_BV, []), "sim_ds::SuccinctBitVector<false>": (S_SV, []), "sim_ds::FitVector": (S_FV, [])}, name=lambda p: {UNITS: "units", LAYERS: "layers", PATHS: "paths"}.get(p.o.const()) if p.r.name == "dac" else None).models()
    return [dict(tu="dac.cpp", keep=K, specs=Q, models=QM + V + THROW), dict(tu="dac.cpp", keep=K, specs=Q2, models=EM + QM + V + THROW),
            dict(tu="dac.cpp", keep=K, specs=[ctor("w_list64", 64, 64, "constructor with widths"), ctor("w_list8", 64, 8, "constructor with byte widths"), ctor("w_auto64", 64, None, "constructor, automatic widths"), ctor("w_auto32", 32, None, "constructor, automatic widths, 32-bit elements")], models=CM + V + THROW)]
def lemmas():
    x, d, e, c, c1, r, s, w, se, ci, ck, t = z3.BitVecs("x d e c c1 r s w se ci ck t", 64); a, b = z3.Bools("a b"); inc = lambda v, p: v + If(p, one, bv(0))
    return [("an element that reaches a level reaches every earlier one", [ule(s, se), high(x, se) != 0], high(x, s) != 0),
            ("count of the next level = rank in the path (step over positions)", [c1 == r, imp(b, a)], inc(c1, b) == If(a, inc(r, b), r)),
            ("counts are monotone (step)", [ule(ck + 1, ci), ult(ci, NLIM)], ule(ck + 1, inc(ci, b))), ("counts are at most the position (step)", [ule(ci, c), ult(c, NLIM)], ule(inc(ci, b), c + 1)),
            ("shifts are monotone and bounded (step)", [ule(s, se), ule(se, 64 * e), ult(e, MLIM), ule(1, w), ule(w, 64)], And(ule(s, se + w), ule(se + w, 64 * (e + 1)), ule(64 * (e + 1), bv(1 << 24)))),
            ("digits compose", [ule(1, w), ule(w, 64), ult(s, bv(1 << 24)), Or(s == 0, high(x, s) != 0)], low(x, s + w) == (low(x, s) | If(ult(s, bv(64)), low(high(x, s), w) << s, bv(0))), "bv")]
