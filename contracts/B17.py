"""Streams.  A stream holds the sequence of written pieces (byte count, contents); a read takes the next piece, must ask for exactly its bytes, and gets exactly its contents.
Types whose code is straight line are verified as a round trip; DacVector, WaveletTree and MultipleVector by one format per class that the writer is proved to produce and the reader to consume."""
from contracts.common import *
from contracts.vecs import *
from contracts.B08 import K as MBK
from vc.engine import lin_of
REPLAY = "B17.cpp"
LEVEL = "proof"
NOTE = "Value and vector codecs, strings, bit vectors, succinct bit vectors, fixed-width vectors, packed symbol vectors (1, 2, 3 bits), automata and dictionaries are proved to read back exactly what they wrote, member by member, into used or fresh objects, asking for exactly the written bytes; DacVector, WaveletTree and MultipleVector are proved to write and to read one format, for every number of components."
ASSUMPTIONS = ["std::ostream::write appends and std::istream::read returns the next bytes (library; no stream errors)", "observable contents are a function of the members (the pieces the class reads)", "fewer than 2^40 elements, 2^16 levels, heights up to 8", "writer and reader agree on the object representation (same build), as the format is raw memory"]
BOUNDED = []
And, Or, Not, If, Sel = z3.And, z3.Or, z3.Not, z3.If, z3.Select
B = z3.BitVecSort(64); one = bv(1); LIM = bv(1 << 40)
class T64: kind = "int"; width = 64; size = 8
def T(w):
    class t: kind = "int"; width = w; size = w // 8
    return t
# ---- streams as piece lists
def m_write(ex, st, ins, args):
    p, n = args[1], args[2]; k = conc(n); tk = st.ghost.setdefault("toks", ()) if "toks" in st.ghost else (); c = conc(z3.simplify(n))
    if isinstance(p, Ptr) and p.r is not None and p.r.kind == "array":
        r = p.r; i = ex.idx_of(st, p); ex.safety(st, "write reads whole elements of the storage from its start", And(i == 0, ule(n, r.size * r.stride)))
        tk += (("arr", n, {k[1:]: a for k, a in st.mem.items() if k[0] == r.id and len(k) == 3}, r.stride),)
    elif c is not None and c in (1, 2, 4, 8): tk += (("val", bv(c), ex.load(st, p, T(8 * c), "written value"), c),)
    elif not isinstance(p, Ptr) or p.r is None: ex.safety(st, "nothing is written from a null pointer", n == 0); tk += (("arr", n, {}, None),)
    else: raise Unsupported(f"write of {n} bytes from {p}")
    st.ghost["toks"] = tk; ex.wrote(("ghost", "toks")); return args[0]
m_write.label = "std::ostream::write (library: appends the bytes)"
def m_read(ex, st, ins, args):
    p, n = args[1], args[2]; tk = st.ghost.get("toks", ())
    if not tk: ex.safety(st, "reads only what was written", z3.BoolVal(False)); return []
    kind, size, what, sd = tk[0]; st.ghost["toks"] = tk[1:]; ex.wrote(("ghost", "toks")); ex.safety(st, "asks for exactly the next written bytes", n == size)
    if kind == "val":
        if p.r.kind == "array": raise Unsupported("a value read into a vector")
        ex.store(st, p, what, T(8 * sd), "value read"); return args[0]
    if not isinstance(p, Ptr) or p.r is None: ex.safety(st, "nothing is read into a null pointer", n == 0); return args[0]
    r = p.r
    if r.kind != "array": raise Unsupported("vector contents read into a value")
    ex.safety(st, "read fits the storage it fills", And(ex.idx_of(st, p) == 0, ule(n, r.size * r.stride)))
    if sd is not None and sd != r.stride: raise Unsupported("element sizes differ")
    for k, a in what.items(): st.mem[(r.id,) + k] = a; ex.wrote((r.id,) + k)
    return args[0]
m_read.label = "std::istream::read (library: the next bytes)"
IO = [(re.compile(r"std::ostream::write\("), m_write), (re.compile(r"std::istream::read\("), m_read)]
# ---- round trips: type = cells [(offset, width)] and vectors [(offset, stride, [(field offset, width)])]
def obj(ex, st, nm, size, cells, vecs, cond=None):
    o = ex.new_struct(nm, size)
    for off, w in cells: st.mem[(o.id, off)] = z3.BitVec(f"{nm}.{off}", w)
    for off, sd, f in vecs:
        n = z3.BitVec(f"{nm}.len{off}", 64); st.assume(ult(n, LIM)); r = Region(f"{nm}.{off}", "array", stride=sd, size=n, kinds=("k",))
        for fo, w in f: st.mem[(r.id, fo, w)] = fresh_arr(r.name, w)
        ex.bind_vec(st, o, off, r, n)
    if cond: st.assume(*cond(ex, st, o))
    return o
def trip(fn, title, size, cells, vecs, fresh_=False, cond=None, loops=()):
    def req(ex, st):
        a = obj(ex, st, "a", size, cells, vecs, cond); b = ex.new_struct("b", size) if fresh_ else obj(ex, st, "b", size, cells, vecs); s, t = ex.new_struct("out"), ex.new_struct("in"); st.ghost.update(a=a, b=b, toks=()); return [Ptr(a), Ptr(b), Ptr(s), Ptr(t)]
    def ens(ex, p, st, r):
        a, b = st.ghost["a"], st.ghost["b"]
        for off, w in cells: x, y = ex.cell(st, a, off, w), ex.cell(st, b, off, w); yield f"member at {off}", x == y; yield f"member at {off} of the written object kept", x == ex.cell(p, a, off, w)
        for off, sd, f in vecs:
            ra, rb, r0 = st.vecs[(a.id, off)], st.vecs.get((b.id, off)), p.vecs[(a.id, off)]; yield f"length of the vector at {off}", And((rb.size if rb is not None else bv(0)) == r0.size, ra.size == r0.size)
            for fo, w in f:
                A0, A, Bb = ex.arr(p, r0, fo, w), ex.arr(st, ra, fo, w), ex.arr(st, rb, fo, w) if rb is not None else None
                if Bb is not None: yield f"contents of the vector at {off}", Forall(lambda j: imp(ult(j, r0.size), And(Sel(Bb, j) == Sel(A0, j), Sel(A, j) == Sel(A0, j))), "k", name="j")
        yield "everything written was read", z3.BoolVal(not st.ghost["toks"])
    return Spec(fn, req, ens, loops=loops, title=title, models=IO)
def V(off, *f): return [(off, f[0] // 8, [(0, f[0])])]
BVC, BVV = [(0, 64)], V(8, 64)
fitok = lambda ex, st, o: [ule(one, ex.cell(st, o, 0)), ule(ex.cell(st, o, 0), 64), ex.cell(st, o, 8) == mask(ex.cell(st, o, 0))]
def sv(t, at=0): return [(at, 64)], V(at + 8, 64) + V(at + 32, 64) + (V(at + 56, 32) if t else [])
def mb(u):
    k = MBK(u); sd = -(-(8 + k.bpt) // 8) * 8
    return 24 + 24 * k.T, [], V(0, 64) + [(24 + 24 * t, sd, [(0, 8 * sd)]) for t in range(k.T)]
un = lambda m: (lambda ex, blk, n: Loop(f"tips {n}", unroll=m))
def aut(c): return V(0, 8) + [(24, 256 * c // 8, [(0, 256 * c)])] + V(48, c)
def mvs():
    S = [trip("w_bv", "BitVector", 32, BVC, BVV)]
    for nm, t in (("svt", True), ("svf", False)):
        for sfx, fr in (("", False), ("_new", True)): S.append(trip(f"w_{nm}{sfx}", f"SuccinctBitVector<{str(t).lower()}>" + (" constructor" if fr else ""), 80, *sv(t), fresh_=fr))
    S.append(trip("w_fit", "FitVector", 48, [(0, 64), (8, 64), (16, 64)], V(24, 64), fresh_=True, cond=fitok))
    S += [trip(f"w_mb{u}", f"MultiBitVector<{u}>", *mb(u), loops=un(2 ** u)) for u in (1, 2, 3)]
    S += [trip(f"w_vec{w}", f"write_vec/read_vec of {w}-bit elements", 24, [], V(0, w)) for w in (8, 16, 32, 64)]
    S += [trip(f"w_val{w}", f"write_val/read_val of {w} bits", w // 8, [(0, w)], []) for w in (8, 32, 64)]
    for nm, c in (("dict", 8), ("dict16", 16)): S.append(trip(f"w_{nm}", f"SamcDict<{c} bit>", 152, [(72, 64)], aut(c) + sv(True, 72)[1]))
    S.append(trip("w_aut", "Samc<8 bit>", 72, [], aut(8)))
    return S
TIPS = {f"sim_ds::MultiBitVector<{u}u>::RankTip": (mb(u)[2][1][1], mb(u)[2][1][2]) for u in (1, 2, 3)}
TIPS.update({f"std::array<unsigned {t}, 256ul>": (32 * c, [(0, 256 * c)]) for t, c in (("char", 8), ("short", 16))})
# ---- strings: {data, length}
def wstr(ex, st):
    a = ex.new_struct("str", 32); n = z3.BitVec("len", 64); st.assume(ult(n, LIM)); r = ex.new_array(st, "chars", 1, n, readonly=True, kinds=("k",)); st.mem[(a.id, 0)] = Ptr(r); st.mem[(a.id, 8)] = n; st.ghost.update(toks=(), n=n, C=ex.arr(st, r)); return [Ptr(a), Ptr(ex.new_struct("out"))]
def wstr_ens(ex, p, st, r):
    t = st.ghost["toks"]; n, C = st.ghost["n"], st.ghost["C"]; ok = len(t) == 2 and t[0][0] == "val" and t[0][3] == 8 and t[1][0] == "arr"; yield "length then characters", z3.BoolVal(ok)
    if ok: yield "the length", t[0][2] == n; yield "as many bytes as characters", t[1][1] == n; A = t[1][2][(0, 8)]; yield "the characters", Forall(lambda j: imp(ult(j, n), Sel(A, j) == Sel(C, j)), "k", name="j")
def m_str(ex, st, ins, args):
    p, n = args[0], args[1]; o = p.o.const(); r = ex.new_array(st, "chars", 1, n, kinds=("k",)); st.mem[(p.r.id, o)] = Ptr(r); st.mem[(p.r.id, o + 8)] = n; ex.wrote((p.r.id, o)); ex.wrote((p.r.id, o + 8)); return None
m_str.label = "std::string(n, c): n characters (library)"
def m_strmove(ex, st, ins, args):
    p, q = args[0], args[1]
    for k in (0, 8): st.mem[(p.r.id, p.o.const() + k)] = st.mem[(q.r.id, q.o.const() + k)]; ex.wrote((p.r.id, p.o.const() + k))
    return None
m_strmove.label = "std::string move construction (library)"
STR = [(re.compile(r"basic_string<.*_M_construct\(unsigned long, char\)"), m_str), (re.compile(r"basic_string\(std::__cxx11::basic_string<.*&&\)"), m_strmove), (re.compile(r"~basic_string|_M_dispose|operator delete"), m_nop)]
def rstr(ex, st):
    b = ex.new_struct("str", 32); n = z3.BitVec("len", 64); st.assume(ult(n, LIM)); C = fresh_arr("written", 8); st.ghost.update(b=b, n=n, C=C, toks=(("val", bv(8), n, 8), ("arr", n, {(0, 8): C}, 1))); return [Ptr(b), Ptr(ex.new_struct("in"))]
def rstr_ens(ex, p, st, r):
    b, n, C = st.ghost["b"], st.ghost["n"], st.ghost["C"]; q = st.mem.get((b.id, 0)); yield "length", ex.cell(st, b, 8) == n; yield "everything written was read", z3.BoolVal(not st.ghost["toks"])
    ok = isinstance(q, Ptr) and q.r is not None and q.r.kind == "array"; yield "storage", z3.BoolVal(ok)
    if ok: A = ex.arr(st, q.r); yield "the characters", Forall(lambda j: imp(ult(j, n), Sel(A, j) == Sel(C, j)), "k", name="j")
STRS = [Spec("w_wstr", wstr, wstr_ens, title="write_string", models=IO), Spec("w_rstr", rstr, rstr_ens, title="read_string", models=STR + IO)]
# ---- MultipleVector: bytes, then the list of field widths
def mv(ex, st, nm):
    o = ex.new_struct(nm, 48); m, n = z3.BitVecs(f"{nm}.fields {nm}.bytes", 64); st.assume(ult(m, LIM), ult(n, LIM)); r = Region("table", "array", stride=16, size=m, kinds=("k",))
    for f in (0, 8): st.mem[(r.id, f, 64)] = fresh_arr("table", 64)
    ex.bind_vec(st, o, 0, r, m); ex.make_vec(st, o, 24, "bytes", 1, n, kinds=("k",)); return o
def mst(ex, st): a = mv(ex, st, "a"); st.ghost.update(a=a, toks=()); return [Ptr(a), Ptr(ex.new_struct("out"))]
def mst_loop(ex, blk, k):
    def inv(L):
        st = L.st; i = L.ix("table"); g = st.ghost; Z = L.ex.arr(st, st.vecs[(g["a"].id, 0)], 8, 64); v = [r for (o, f), r in st.vecs.items() if o != g["a"].id]; st.term("k", i)
        c = v[0].size if v else bv(0); yield "one width per field so far", And(c == i, ule(i, st.vecs[(g["a"].id, 0)].size))
        if v: A = L.ex.arr(st, v[0]); yield "the widths so far", Forall(lambda j: imp(ult(j, i), Sel(A, j) == Sel(Z, j)), "k", name="j")
    return Loop("gather the widths", inv, lambda L: L.st.vecs[(L.st.ghost["a"].id, 0)].size - L.ix("table"), roles={"table": "table"})
def mst_ens(ex, p, st, r):
    t = st.ghost["toks"]; a = st.ghost["a"]; tb, by_ = p.vecs[(a.id, 0)], p.vecs[(a.id, 24)]; ok = [x[0] for x in t] == ["val", "arr", "val", "arr"] and t[1][3] in (1, None) and t[3][3] in (8, None); yield "format: byte count, bytes, field count, widths", z3.BoolVal(ok)
    if not ok: return
    yield "byte count", And(t[0][2] == by_.size, t[1][1] == by_.size); yield "field count", And(t[2][2] == tb.size, t[3][1] == tb.size * 8); D = ex.arr(p, by_)
    A = t[1][2].get((0, 8)); Z = ex.arr(p, tb, 8, 64); C = t[3][2].get((0, 64))
    yield "the bytes", Forall(lambda j: imp(ult(j, by_.size), Sel(A, j) == Sel(D, j) if A is not None else z3.BoolVal(False)), "k", name="j"); yield "the widths", Forall(lambda j: imp(ult(j, tb.size), Sel(C, j) == Sel(Z, j) if C is not None else z3.BoolVal(False)), "k", name="j")
def mld(ex, st):
    b = mv(ex, st, "b"); n, m = z3.BitVecs("written.bytes written.fields", 64); st.assume(ult(n, LIM), ult(m, LIM)); D, Z = fresh_arr("D", 8), fresh_arr("Z", 64)
    st.ghost.update(b=b, n=n, m=m, D=D, Z=Z, laid=None, toks=(("val", bv(8), n, 8), ("arr", n, {(0, 8): D}, 1), ("val", bv(8), m, 8), ("arr", m * 8, {(0, 64): Z}, 8))); return [Ptr(b), Ptr(ex.new_struct("in"))]
def m_widths(ex, st, ins, args):
    o, s = args[0], args[1]; ex.safety(st, "configures the object being read", z3.BoolVal(o.r is st.ghost["b"] and o.o.const() == 0)); st.ghost["laid"] = st.vecs.get((s.r.id, s.o.const())); st.ghost["laidA"] = ex.arr(st, st.ghost["laid"], 0, 64) if st.ghost["laid"] is not None else None; return None
m_widths.label = "set_element_sizes: the layout is exactly that of the given widths, bytes untouched (proved under B09)"
def mld_ens(ex, p, st, r):
    g = st.ghost; rb = st.vecs.get((g["b"].id, 24)); yield "bytes", rb.size == g["n"]; A = ex.arr(st, rb); yield "the bytes", Forall(lambda j: imp(ult(j, g["n"]), Sel(A, j) == Sel(g["D"], j)), "k", name="j"); yield "everything written was read", z3.BoolVal(not g["toks"]); yield "layout configured", z3.BoolVal(g["laid"] is not None)
    if g["laid"] is not None: yield "as many fields as written", g["laid"].size == g["m"]; yield "widths as written", Forall(lambda j: imp(ult(j, g["m"]), Sel(g["laidA"], j) == Sel(g["Z"], j)), "k", name="j")
MVS = [Spec("w_mvstore", mst, mst_ens, loops=mst_loop, title="MultipleVector::StoreTo", models=IO), Spec("w_mvload", mld, mld_ens, title="MultipleVector::LoadFrom", models=[(re.compile(r"set_element_sizes"), m_widths)] + IO)]
# ---- composites: the stream is a sequence of pieces (kind, value or component number)
VAL, FIT, SUC = 1, 2, 3
def c_write(ex, st, ins, args):
    p, n = args[1], args[2]; ex.safety(st, "writes one word", n == 8); emit(ex, st, VAL, ex.load(st, p, T64, "written value")); return args[0]
c_write.label = m_write.label
def emit(ex, st, kind, v):
    g = st.ghost; n = g["TP"]; g["TK"] = z3.Store(g["TK"], n, bv(kind)); g["TV"] = z3.Store(g["TV"], n, v); g["TP"] = z3.simplify(n + 1); st.term("tok", n)
    for k in ("TK", "TV", "TP"): ex.wrote(("ghost", k))
def take(ex, st, kind):
    g = st.ghost; n = g["TP"]; st.term("tok", n); ex.safety(st, "reads only what was written", ult(n, g["TL"])); ex.safety(st, "the next piece is of the kind that is read", Sel(g["TK"], n) == kind); g["TP"] = z3.simplify(n + 1); ex.wrote(("ghost", "TP")); return Sel(g["TV"], n)
def c_read(ex, st, ins, args): ex.safety(st, "reads one word", args[2] == 8); ex.store(st, args[1], take(ex, st, VAL), T64, "value read"); return args[0]
c_read.label = m_read.label
def elem(ex, st, p, what): i = ex.idx_of(st, p); ex.safety(st, what + " in bounds", ult(i, p.r.size)); return i
def comp_write(kind, nm, base):
    def m(ex, st, ins, args): 
        if args[0].r.name.rstrip("'") != nm: raise Unsupported("component of another vector")
        emit(ex, st, kind, elem(ex, st, args[0], "component")); return None
    m.label = f"{nm[:-1]}: Write emits one piece (proved above for its class)"; return m
def comp_ctor(kind, nm):
    def m(ex, st, ins, args): v = take(ex, st, kind); st.ghost["made"] = {**st.ghost.get("made", {}), args[0].r.id: v}; return None
    m.label = f"{nm[:-1]} read from a stream: takes one piece (proved above for its class)"; return m
def comp_read(kind, nm):
    def m(ex, st, ins, args): i = elem(ex, st, args[0], "component"); v = take(ex, st, kind); g = st.ghost; g["C" + nm] = z3.Store(g["C" + nm], i, v); ex.wrote(("ghost", "C" + nm)); return None
    m.label = f"{nm[:-1]}::Read takes one piece (proved above for its class)"; return m
def comp_push(nm, sd):
    def m(ex, st, ins, args):
        g = st.ghost; p = args[0]; old = st.vecs.get((p.r.id, p.o.const())); n = old.size if old is not None else bv(0); v = g.get("made", {}).get(args[1].r.id)
        if v is None: raise Unsupported("append of an object that was not read")
        st.term("lev", n); g["C" + nm] = z3.Store(g["C" + nm], n, v); ex.wrote(("ghost", "C" + nm)); r = Region(nm, "array", stride=sd, size=z3.simplify(n + 1), kinds=("lev",))
        if old is not None: st.dead.add(old.id)
        ex.bind_vec(st, p.r, p.o.const(), r, r.size)
        for k in range(3): ex.wrote((p.r.id, p.o.const() + 8 * k))
        ex.wrote(("vec", p.r.id, p.o.const())); return Ptr(r, lin_of(n).mul(sd)) if ins.ty.kind == "pointer" else None
    m.label = f"vector of {nm}: push_back appends"; return m
SVC = r"sim_ds::SuccinctBitVector<false>::"; FVC = r"sim_ds::FitVector::"
CIO = [(re.compile(r"std::ostream::write\("), c_write), (re.compile(r"std::istream::read\("), c_read)]
def cg(st): st.ghost.update(TK=z3.Const("TK0", z3.ArraySort(B, B)), TV=z3.Const("TV0", z3.ArraySort(B, B)), TP=bv(0), Clayers=z3.Const("CL0", z3.ArraySort(B, B)), Cpaths=z3.Const("CP0", z3.ArraySort(B, B)), Cnodes=z3.Const("CN0", z3.ArraySort(B, B)))
def dac_fmt(m, U):
    """piece k of a coded vector with m levels of widths U"""
    pm = If(m == 0, bv(0), m - 1); L1, L2 = 1 + m, 1 + m + m
    return L2 + pm, lambda k: (If(ult(k, L1), bv(VAL), If(ult(k, L2), bv(FIT), bv(SUC))), If(k == 0, m, If(ult(k, L1), Sel(U, k - 1), If(ult(k, L2), k - L1, k - L2))))
def fmt_holds(g, f, lim): return Forall(lambda k: imp(ult(k, lim), And(Sel(g["TK"], k) == f(k)[0], Sel(g["TV"], k) == f(k)[1])), "tok", name="k")
def dac_obj(ex, st, nm, empty=False):
    o = ex.new_struct("dac", 80); m = z3.BitVec(nm + ".levels", 64); st.assume(ult(m, 1 << 16)); st.mem[(o.id, 0)] = m; ex.make_vec(st, o, 8, "units", 8, m, kinds=("lev", "tok"))
    pm = z3.simplify(If(m == 0, bv(0), m - 1))
    for off, n, sd, sz in ((32, "layers", 48, m), (56, "paths", 80, pm)): ex.bind_vec(st, o, off, Region(n, "array", stride=sd, size=sz, kinds=("lev",)), sz)
    return o, m
def dacw(ex, st):
    o, m = dac_obj(ex, st, "a"); cg(st); U = ex.vec(st, o, 8)[1]; L, f = dac_fmt(m, U); st.ghost.update(o=o, m=m, F=f, FL=L); return [Ptr(o), Ptr(ex.new_struct("out"))]
def dacw_loop(ex, blk, n):
    nm = ("units", "layers", "paths")[n] if n < 3 else None
    if nm is None: raise Unsupported("a fourth loop")
    def inv(L):
        g = L.st.ghost; m = g["m"]; i = L.ix(nm); base = (one, 1 + m, 1 + m + m)[n]; lim = (m, m, If(m == 0, bv(0), m - 1))[n]
        yield "pieces so far", And(ule(i, lim), g["TP"] == base + i); yield "they are the format's", fmt_holds(g, g["F"], g["TP"])
    return Loop("write the " + nm, inv, lambda L: L.st.vecs[(L.st.ghost["o"].id, 8 + 24 * n)].size - L.ix(nm), roles={nm: nm})
def dacw_ens(ex, p, st, r): g = st.ghost; yield "number of pieces", g["TP"] == g["FL"]; yield "exactly the format", fmt_holds(g, g["F"], g["FL"])
def dacr(fr):
    def f(ex, st):
        o = ex.new_struct("dac", 80) if fr else dac_obj(ex, st, "b")[0]; cg(st); g = st.ghost; m = z3.BitVec("levels", 64); st.assume(ult(m, 1 << 16)); U = fresh_arr("W", 64); L, F = dac_fmt(m, U); g.update(o=o, m=m, W=U, F=F, TL=z3.simplify(L)); st.assume(fmt_holds(g, F, L)); return [Ptr(o), Ptr(ex.new_struct("in"))]
    return f
def dlen(st, off): r = st.vecs.get((st.ghost["o"].id, off)); return r.size if r is not None else bv(0)
def cunits(ex, st, lim):
    o = st.ghost["o"]
    if st.vecs.get((o.id, 8)) is None: return lim == 0
    A = ex.vec(st, o, 8)[1]; return Forall(lambda j: imp(ult(j, lim), Sel(A, j) == Sel(st.ghost["W"], j)), ("lev",), name="j")
def ccomp(st, nm, lim): C = st.ghost["C" + nm]; return Forall(lambda j: imp(ult(j, lim), Sel(C, j) == j), ("lev",), name="j")
def dacr_loop(ex, blk, n):
    def inv(L):
        st = L.st; g = st.ghost; m = g["m"]; i = L.v("i"); lim = (m, m, m - 1)[n]; base = (one, 1 + m, 1 + m + m)[n]; at = (i, m, m)[n], (bv(0), i, m)[n], (bv(0), bv(0), i)[n]; st.term("lev", i)
        for t in range(3): yield ("widths", "levels", "paths")[t] + " so far", dlen(st, 8 + 24 * t) == at[t]
        yield "position in the stream", And(ule(i, lim), g["TP"] == base + i, L.ex.cell(st, g["o"], 0) == m); yield "widths read", cunits(L.ex, st, at[0]); yield "levels read", ccomp(st, "layers", at[1]); yield "paths read", ccomp(st, "paths", at[2])
    return Loop("read the " + ("widths", "levels", "paths")[n], inv, lambda L: (L.st.ghost["m"], L.st.ghost["m"], L.st.ghost["m"] - 1)[n] - L.v("i"), roles={"i": 64})
def dacr_ens(ex, p, st, r):
    g = st.ghost; m = g["m"]; pm = If(m == 0, bv(0), m - 1); yield "number of levels", ex.cell(st, g["o"], 0) == m
    for t, n in ((0, m), (1, m), (2, pm)): yield ("widths", "levels", "paths")[t] + " count", dlen(st, 8 + 24 * t) == n
    yield "widths", cunits(ex, st, m); yield "levels in order", ccomp(st, "layers", m); yield "paths in order", ccomp(st, "paths", pm); yield "everything written was read", g["TP"] == g["TL"]
def wt_fmt(h, lv, n): L = 3 + ((one << h) - 1); return L, lambda k: (If(ult(k, 3), bv(VAL), bv(SUC)), If(k == 0, h, If(k == 1, lv, If(k == 2, n, k - 3))))
def wt_obj(ex, st, nm):
    o = ex.new_struct("tree", 48); v = z3.BitVecs(f"{nm}.height {nm}.leafs {nm}.size", 64); st.assume(ule(v[0], 8), ult(v[2], LIM)); sz = z3.simplify((one << v[0]) - 1); ex.bind_vec(st, o, 24, Region("nodes", "array", stride=80, size=sz, kinds=("lev",)), sz)
    for k in range(3): st.mem[(o.id, 8 * k)] = v[k]
    return o, v
def wtw(ex, st): o, v = wt_obj(ex, st, "a"); cg(st); L, f = wt_fmt(*v); st.ghost.update(o=o, F=f, FL=L); return [Ptr(o), Ptr(ex.new_struct("out"))]
def wt_loop(ex, blk, n):
    def inv(L):
        st = L.st; g = st.ghost; i = L.ix("nodes"); N = dlen(st, 24); yield "pieces so far", And(ule(i, N), g["TP"] == 3 + i); st.term("lev", i)
        if "FL" in g: yield "they are the format's", fmt_holds(g, g["F"], g["TP"])
        else:
            yield "nodes read", ccomp(st, "nodes", i)
    return Loop("nodes in order", inv, lambda L: dlen(L.st, 24) - L.ix("nodes"), roles={"nodes": "nodes"})
def wtr(ex, st): o, _ = wt_obj(ex, st, "b"); cg(st); v = z3.BitVecs("height leafs size", 64); st.assume(ule(v[0], 8)); L, F = wt_fmt(*v); st.ghost.update(o=o, F=F, TL=z3.simplify(L), v=v); st.assume(fmt_holds(st.ghost, F, L)); return [Ptr(o), Ptr(ex.new_struct("in"))]
def wtr_ens(ex, p, st, r):
    g = st.ghost; v = g["v"]; N = (one << v[0]) - 1
    for k, nm in enumerate(("height", "leafs", "size")): yield nm, ex.cell(st, g["o"], 8 * k) == v[k]
    yield "number of nodes", dlen(st, 24) == N; yield "nodes in order", ccomp(st, "nodes", N); yield "everything written was read", g["TP"] == g["TL"]
COMP = [Spec("w_dacw", dacw, dacw_ens, loops=dacw_loop, title="DacVector::Write"), Spec("w_dacr", dacr(False), dacr_ens, loops=dacr_loop, title="DacVector::Read into a used object"), Spec("w_dacn", dacr(True), dacr_ens, loops=dacr_loop, title="DacVector(istream)"),
        Spec("w_wtw", wtw, dacw_ens, loops=wt_loop, title="WaveletTree::Write"), Spec("w_wtr", wtr, wtr_ens, loops=wt_loop, title="WaveletTree::Read")]
for s in COMP:
    nm = "nodes" if "wt" in s.fn else "paths"
    s.models = [(re.compile(FVC + r"Write\("), comp_write(FIT, "layers", 32)), (re.compile(SVC + r"Write\("), comp_write(SUC, nm, 24)), (re.compile(FVC + r"FitVector\(std::istream"), comp_ctor(FIT, "layers")), (re.compile(SVC + r"SuccinctBitVector\(std::istream"), comp_ctor(SUC, "paths")),
                (re.compile(SVC + r"Read\("), comp_read(SUC, nm)), (re.compile(r"std::vector<sim_ds::FitVector.*::(push|emplace)_back"), comp_push("layers", 48)), (re.compile(r"std::vector<sim_ds::SuccinctBitVector<false>.*::(push|emplace)_back"), comp_push("paths", 80)), (re.compile(r"sim_ds::\w+(<false>)?::~"), m_nop)] + CIO
def units():
    VL = VecLib(sizes={**TIPS, "sim_ds::SuccinctBitVector<false>": (80, []), "sim_ds::FitVector": (48, []), "sim_ds::MultipleVector::Element": (16, [(0, 64), (8, 64)])}, kinds=lambda p: ("lev", "tok") if p.r.name in ("dac", "tree") else ("k",),
                name=lambda p: {8: "units", 32: "layers", 56: "paths"}.get(p.o.const()) if p.r.name == "dac" else "nodes" if p.r.name == "tree" else None).models()
    return [dict(tu="streams.cpp", keep=KEEP_VEC, specs=mvs() + STRS, models=VL + THROW), dict(tu="streams.cpp", keep=KEEP_VEC + [r"set_element_sizes"], specs=MVS, models=VL + THROW),
            dict(tu="streams.cpp", keep=KEEP_VEC + [FVC + r"(Write|FitVector|~FitVector)\(", SVC + r"(SuccinctBitVector|~SuccinctBitVector|Write|Read)\("], specs=COMP, models=VL + THROW)]
