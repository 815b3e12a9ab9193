"""Wavelet tree.  Node id (1-based heap numbering) at depth d stores, in order, bit h-1-d of every symbol whose path passes it;
C(id,i) = number of symbols before position i whose path passes id.  C(1,i)=i and C(2^h+c, i) is the number of occurrences of c before i."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B10.cpp"
LEVEL = "proof"
NOTE = "The constructor is proved to give every node exactly the bits of the symbols that pass it, in order, and access, both ranks and the combined query to return the exact symbol and counts from that, for every length, alphabet (heights 1 to 8) and index; bit vector append, bit access and rank are the contracts proved under B01 and B02."
ASSUMPTIONS = ["fewer than 2^31 symbols (the constructor counts positions with int)", "symbols are at most 255", "the path-count function C is defined by its recursion over positions; its relation to rank inside a node and its monotonicity are lemmas with discharged induction steps",
               "std::max_element returns the position of a largest element (library)"]
And, Or, Not, ult, ule, Sel, If = z3.And, z3.Or, z3.Not, z3.ULT, z3.ULE, z3.Select, z3.If
B = z3.BitVecSort(64); Bo = z3.BoolSort()
C = z3.Function("path_count", B, B, B); R = z3.Function("node_rank", B, B, B); L = z3.Function("node_len", B, B); Bt = z3.Function("node_bit", B, B, Bo)
lsr = z3.LShR; one = bv(1); NLIM = bv(1 << 31)
S_BV, S_SV = 32, 80
def passes(s, id, d, h): return id == ((one << d) | lsr(s, h - d))
def symbit(s, d, h): return z3.Extract(0, 0, lsr(s, h - 1 - d)) == 1
def valid(id, d, h): return And(ult(d, h), lsr(id, d) == 1)
def node_of(ex, st, p, n=None):
    i = ex.idx_of(st, p); ex.safety(st, "tree node in bounds", ult(i, p.r.size)); return z3.simplify(i + 1)

# ---- queries
def link(g, id, i, d):
    """the tree invariant at node id of depth d and position i (established by the constructor), with the rank lemma"""
    h, n, sym = g["h"], g["n"], g["sym"]; c = C(id, i); s = sym(i)
    return imp(And(valid(id, d, h), ule(i, n)), And(ule(c, L(id)), ult(L(id), NLIM), C(2 * id + 1, i) == R(id, c), ule(R(id, c), c), C(2 * id, i) == c - R(id, c),
               imp(And(ult(i, n), passes(s, id, d, h)), And(ult(c, L(id)), Bt(id, c) == symbit(s, d, h)))))
def make(ex, st):
    o = ex.new_struct("tree", 48); h, n, lv = z3.BitVecs("height n leafs", 64); sym = z3.Function("symbol", B, B)
    st.mem[(o.id, 0)], st.mem[(o.id, 8)] = h, lv
    st.assume(ule(1, h), ule(h, 8), ult(n, NLIM), ule(1, n), ule(lv, one << h), ule(1, lv))
    r = Region("nodes", "array", stride=S_SV, size=z3.simplify((one << h) - 1)); ex.bind_vec(st, o, 24, r, r.size)
    st.ghost.update(o=o, h=h, n=n, sym=sym, lv=lv); st.assume(L(one) == n); return o
def q(fn, title, args, post, widths, val=False, last=False):
    def req(ex, st):
        o = make(ex, st); g = st.ghost; vs = []
        for a in args:
            if a == "c": g["c"] = z3.BitVec("c", 8); g["s"] = zx(g["c"]); vs.append(g["c"])
            if a == "i":
                i = g["i"] = z3.BitVec("i", 64); vs.append(i); st.assume(ule(i, g["n"]) if "c" in args else ult(i, g["n"]), C(one, i) == i)
                if "c" not in args:
                    g["s"] = g["sym"](i); st.assume(ult(g["s"], one << g["h"]), ult(g["s"], g["lv"]))
            if a == "v": r = ex.new_struct("out", 1); g["out"] = r; vs.append(Ptr(r))
        g["cq"] = C((one << g["h"]) | g["s"], g["i"]) if "i" in args else None
        if "c" in args: st.assume(imp(ule(g["lv"], g["s"]), g["cq"] == 0))       # no symbol is larger than the alphabet
        return [Ptr(o)] + vs
    def loops(ex, blk, n):
        def inv(Lv):
            g = Lv.st.ghost; h, s, d, idx, id = g["h"], g["s"], Lv.v("depth"), Lv.v("idx"), zx(Lv.v("id"))
            Lv.st.assume(link(g, id, g["i"], d))
            yield "depth within the tree", ule(d, h - 1 if last else h)
            yield "node on the path of the symbol", id == ((one << d) | lsr(s, h - d))
            yield "position = earlier symbols that pass the node", idx == C(id, g["i"])
            if val: v = Lv.v("value"); yield "bits read so far", zx(v) == (lsr(s, h - d) << (h - d))
        return Loop("descend the tree", inv, lambda Lv: Lv.st.ghost["h"] - Lv.v("depth"), roles=widths)
    def ens(ex, p, st, r): 
        yield from post(ex, p.ghost, st, r)
    return Spec(fn, req, ens, loops=loops, title=title)
def m_get(ex, st, ins, args):
    id = node_of(ex, st, args[0]); ex.safety(st, "bit index below the node length", ult(args[1], L(id))); return Bt(id, args[1])
m_get.label = "SuccinctBitVector::operator[] (proved under B02)"
def m_rank(z):
    def m(ex, st, ins, args):
        id = node_of(ex, st, args[0]); ex.safety(st, "rank position at most the node length", ule(args[1], L(id))); return args[1] - R(id, args[1]) if z else R(id, args[1])
    m.label = "SuccinctBitVector::rank (proved under B02)"; return m
def m_size(ex, st, ins, args): return L(node_of(ex, st, args[0]))
m_size.label = "SuccinctBitVector::size"
SV = r"sim_ds::SuccinctBitVector<false>::"
QM = [(re.compile(SV + r"operator\[\]"), m_get), (re.compile(SV + r"rank(_1)?\("), m_rank(False)), (re.compile(SV + r"rank_0\("), m_rank(True)), (re.compile(SV + r"size\("), m_size)]
def out(ex, st):
    class Ty: kind = "int"; width = 8; size = 1
    return ex.load(st, Ptr(st.ghost["out"]), Ty, "result")
def count(g): return C((one << g["h"]) | g["s"], g["i"])
Q = [q("w_get", "operator[]", ["i"], lambda ex, g, st, r: [("the i-th symbol", zx(r) == g["s"])], {"depth": 64, "idx": 64, "id": 32, "value": 8}, True, True),
     q("w_rank1", "rank(i)", ["i"], lambda ex, g, st, r: [("occurrences of the i-th symbol before i", r == count(g))], {"depth": 64, "idx": 64, "id": 64}),
     q("w_rank2", "rank(c, i)", ["c", "i"], lambda ex, g, st, r: [("occurrences of c before i", r == count(g))], {"depth": 64, "idx": 64, "id": 64}),
     q("w_both", "AccessAndRank", ["i", "v"], lambda ex, g, st, r: [("the i-th symbol", zx(out(ex, st)) == g["s"]), ("its occurrences before i", r == count(g))], {"depth": 64, "idx": 64, "id": 64, "value": 32}, True),
     q("w_size", "size", [], lambda ex, g, st, r: [("number of symbols", r == g["n"])], {})]

# ---- construction
def key(id, p): return z3.Concat(z3.Extract(9, 0, id), z3.Extract(53, 0, p))
def creq(w):
    def f(ex, st):
        o = ex.new_struct("tree", 48); v = ex.new_struct("vec", 24); n = z3.BitVec("n", 64); st.assume(ule(1, n), ult(n, NLIM)); r = ex.make_vec(st, v, 0, "src", w // 8, n, kinds=("pos",))
        st.ghost.update(o=o, v=v, n=n, SL=z3.K(B, bv(0)), SB=z3.Const("SB0", z3.ArraySort(B, Bo)), DS=z3.K(B, bv(0)), A=ex.vec(st, v, 0)[1])
        A = st.ghost["A"]; st.assume(Forall(lambda k: imp(ult(k, n), ule(zx(Sel(A, k)), 255)), "pos")); return [Ptr(o), Ptr(v)]
    return f
def m_max(ex, st, ins, args):
    r = args[0].r; g = st.ghost; A, n = g["A"], g["n"]; m = fresh("max_at"); st.assume(ult(m, n), Forall(lambda k: imp(ult(k, n), ule(zx(Sel(A, k)), zx(Sel(A, m)))), "pos")); st.term("pos", m); g["mx"] = zx(Sel(A, m))
    return Ptr(r, lin_of(m).mul(r.stride))
m_max.label = "std::max_element (trusted library contract)"
def m_bits(ex, st, ins, args):
    h = fresh("height"); x = args[0]; st.assume(ule(1, h), ule(h, 64), imp(ult(h, 64), lsr(x, h) == 0), Or(h == 1, lsr(x, h - 1) != 0)); st.ghost["h"] = h; st.assume(imp(ule(x, 255), And(ule(h, 8), ult(x, one << h)))); return h
m_bits.label = "calc::SizeFitsInBits: least h >= 1 with value < 2^h (proved under B23)"
def m_resize(name, stride):
    def m(ex, st, ins, args):
        p = args[0]; r = Region(name, "array", stride=stride, size=args[1]); ex.bind_vec(st, p.r, p.o.const(), r, args[1])
        for k in range(3): ex.wrote((p.r.id, p.o.const() + 8 * k))
        if name == "srcbits": ex.safety(st, "one bit vector per inner node", args[1] == (one << st.ghost["h"]) - 1)
        return None
    m.label = "std::vector::resize from empty: default-constructed elements (trusted library contract)"; return m
def m_append(ex, st, ins, args):
    id = node_of(ex, st, args[0]); g = st.ghost; n = Sel(g["SL"], id); b = args[1] if z3.is_bool(args[1]) else z3.Extract(0, 0, args[1]) == 1
    g["SB"] = z3.Store(g["SB"], key(id, n), b); g["SL"] = z3.Store(g["SL"], id, n + 1); ex.wrote(("ghost", "SB")); ex.wrote(("ghost", "SL")); return None
m_append.label = "BitVector::push_back appends the bit (proved under B01)"
def m_sv(ex, st, ins, args):
    st.ghost["tmp"] = (args[0].r.id, node_of(ex, st, args[1])); return None
m_sv.label = "SuccinctBitVector(BitVector&&) holds the bits of its argument (proved under B02)"
def m_move(ex, st, ins, args):
    t = st.ghost.get("tmp"); ex.safety(st, "the moved vector is the one just built", z3.BoolVal(t is not None and t[0] == args[1].r.id)); g = st.ghost
    g["DS"] = z3.Store(g["DS"], node_of(ex, st, args[0]), t[1]); ex.wrote(("ghost", "DS")); return args[0]
m_move.label = "SuccinctBitVector move assignment (member-wise vector moves)"
CM = [(re.compile(r"std::max_element<"), m_max), (re.compile(r"SizeFitsInBits\("), m_bits), (re.compile(r"BitVector::push_back\("), m_append), (re.compile(SV + r"SuccinctBitVector\(sim_ds::BitVector&&\)"), m_sv), (re.compile(SV + r"operator=\(sim_ds::SuccinctBitVector<false>&&\)"), m_move),
      (re.compile(SV + r"~SuccinctBitVector"), m_nop), (re.compile(r"^std::vector<sim_ds::BitVector.*::resize\("), m_resize("srcbits", S_BV)), (re.compile(r"^std::vector<sim_ds::SuccinctBitVector<false>.*::resize\("), m_resize("nodes", S_SV))]
def defs(g, id, d, k):
    """recursion and monotonicity of C at (id, k)"""
    h = g["h"]; s = zx(Sel(g["A"], k)); return imp(valid(id, d, h), And(C(id, bv(0)) == 0, ule(C(id, k), k), imp(ult(k, g["n"]), C(id, k + 1) == C(id, k) + If(passes(s, id, d, h), one, bv(0)))))
def mono(g, id, d, k, i):
    s = zx(Sel(g["A"], k)); return imp(And(valid(id, d, g["h"]), ult(k, i), ule(i, g["n"]), passes(s, id, d, g["h"])), And(ult(C(id, k), C(id, i)), ule(C(id, i), i)))
def state(g, i, cur=None, d=None):
    """after the symbols before i (and, with cur, the nodes of symbol i above depth d)"""
    h, A, n = g["h"], g["A"], g["n"]
    def done(id, dd): return BoolV(False) if cur is None else And(ult(dd, d), passes(cur, id, dd, h))
    yield "every node has one bit per symbol that passes it", Forall(lambda id, dd: (imp(valid(id, dd, h), Sel(g["SL"], id) == C(id, i) + If(done(id, dd), one, bv(0))), [(None, defs(g, id, dd, i)), (None, defs(g, id, dd, z3.simplify(i - 1)))]), ["node", "dep"], name="x")
    yield "the bits of every node are those of the symbols that pass it", Forall(lambda id, dd, k: (imp(And(valid(id, dd, h), passes(zx(Sel(A, k)), id, dd, h), Or(ult(k, i), And(k == i, done(id, dd)) if cur is not None else False)), Sel(g["SB"], key(id, C(id, k))) == symbit(zx(Sel(A, k)), dd, h)),
                          [(None, mono(g, id, dd, k, i)), (None, mono(g, id, dd, k, z3.simplify(i - 1))), (None, defs(g, id, dd, i)), (None, defs(g, id, dd, k))]), ["node", "dep", "pos"], name="y")
def BoolV(b): return z3.BoolVal(b)
def cloops(ex, blk, n):
    inner = any(blk in b for h, b in ex.loops.items() if h is not blk); outer = any(h in ex.loops[blk] for h in ex.loops if h is not blk)
    if outer:
        def inv(Lv):
            st = Lv.st; g = st.ghost; i = sx(Lv.v("i")); h = g["h"]; st.term("pos", i); clear(st)
            yield "position", And(ule(i, g["n"]), ule(1, h), ule(h, 8))
            yield from state(g, i)
        return Loop("distribute the symbols", inv, lambda Lv: Lv.st.ghost["n"] - sx(Lv.v("i")), roles={"i": 32})
    if inner:
        def inv(Lv):
            st = Lv.st; g = st.ghost; i = g["ci"]; h = g["h"]; s = zx(Sel(g["A"], i)); d = Lv.v("depth"); id = zx(Lv.v("id")); 
            yield "depth", And(ule(d, h), ult(s, one << h), ult(i, g["n"]))
            yield "node on the path of the symbol", id == ((one << d) | lsr(s, h - d))
            clear(st); st.term("node", id); st.term("dep", d); st.term("pos", i)
            hd = getattr(Lv, "h", None)
            if hd is not None: st.term("node", zx(hd.v("id"))); st.term("dep", hd.v("depth")); st.assume(defs(g, zx(hd.v("id")), hd.v("depth"), i))
            st.assume(defs(g, id, d, i))
            yield from state(g, i, s, d)
        def setup(Lv):
            Lv.st.ghost["ci"] = cur_i(Lv)
        return Loop("append one bit per level", inv, lambda Lv: Lv.st.ghost["h"] - Lv.v("depth"), roles={"depth": 64, "id": 32}, setup=setup)
    def inv(Lv):
        st = Lv.st; g = st.ghost; i = Lv.v("i"); st.term("dst", i + 1)
        yield "node counter", ule(i, (one << g["h"]) - 1)
        yield "nodes so far hold their bits", Forall(lambda j: imp(And(ule(1, j), ule(j, i)), Sel(g["DS"], j) == j), "dst", name="j")
    return Loop("build the succinct nodes", inv, lambda Lv: (one << Lv.st.ghost["h"]) - Lv.v("i"), roles={"i": 64})
def clear(st):
    for k in ("node", "dep"): st.terms.pop(k, None)
def cur_i(Lv):
    for c in reversed(Lv.ex.lctx):
        if c.ls.name == "distribute the symbols": return sx(c.head.v("i"))
    raise Unsupported("no enclosing loop over the symbols")
def cens(ex, p, st, r):
    g = st.ghost; h, n, A = g["h"], g["n"], g["A"]; o = g["o"]; clear(st)
    yield "height and alphabet recorded", And(st.mem[(o.id, 0)] == h, st.mem[(o.id, 8)] == g["mx"] + 1, ule(g["mx"] + 1, one << h), ule(h, 8), ule(1, h))
    yield "one node per inner position", ex.vec(st, o, 24)[0].size == (one << h) - 1
    yield "node j holds the bits gathered for j", Forall(lambda j: imp(And(ule(1, j), ult(j, one << h)), Sel(g["DS"], j) == j), "dst", name="j")
    yield "every symbol fits the height", Forall(lambda k: imp(ult(k, n), And(ult(zx(Sel(A, k)), one << h), ule(zx(Sel(A, k)), g["mx"]))), "pos", name="k")
    yield from state(g, n)
def ctor(fn, w): return Spec(fn, creq(w), cens, loops=cloops, title=f"constructor from {w}-bit symbols")
def units():
    K = KEEP_VEC + [r"sim_ds::SuccinctBitVector<false>::", r"SizeFitsInBits\(", r"BitVector::push_back\(", r"std::max_element<"]
    V = VecLib(sizes={"sim_ds::BitVector": (S_BV, []), "sim_ds::SuccinctBitVector<false>": (S_SV, [])}).models()
    return [dict(tu="wavelet.cpp", keep=K, specs=Q, models=QM + V + THROW), dict(tu="wavelet.cpp", keep=K, specs=[ctor("w_ctor8", 8), ctor("w_ctor32", 32), ctor("w_ctor64", 64)], models=CM + V + THROW)]
def lemmas():
    id, d, h, s, c, c1, c0, r, ci, ck = z3.BitVecs("id d h s c c1 c0 r ci ck", 64); b = z3.Bool("b"); V = [valid(id, d, h), ule(1, h), ule(h, 8), ult(s, one << h)]
    P = passes(s, id, d, h); sb = symbit(s, d, h); P1, P0 = passes(s, 2 * id + 1, d + 1, h), passes(s, 2 * id, d + 1, h); inc = lambda x, p: x + If(p, one, bv(0))
    return [("a path continues into the child chosen by the symbol's bit", V, And(P1 == And(P, sb), P0 == And(P, Not(sb)))),
            ("count of a child = rank in the node (step over positions)", V + [c1 == r, c0 == c - r, ule(r, c), P1 == And(P, sb), P0 == And(P, Not(sb))],
             And(inc(c1, P1) == If(P, inc(r, sb), r), inc(c0, P0) == inc(c, P) - If(P, inc(r, sb), r))),
            ("every symbol passes the root; a symbol reaches its own leaf only", V, And(passes(s, one, bv(0), h), passes(s, (one << h) | s, h, h), imp(passes(s, (one << h) | c, h, h), imp(ult(c, one << h), c == s)))),
            ("path counts are monotone (step)", [ule(ck + 1, ci), ult(ci, NLIM)], ule(ck + 1, inc(ci, b))), ("path counts are at most the position (step)", [ule(ci, c), ult(c, NLIM)], ule(inc(ci, b), c + 1)),
            ("least width", [ule(1, h), ule(h, 64), ule(s, 255), imp(ult(h, 64), lsr(s, h) == 0), Or(h == 1, lsr(s, h - 1) != 0)], And(ule(h, 8), ult(s, one << h)))]
