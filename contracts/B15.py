"""Compact dynamic rewritable array.  val(i) = 0 if the recorded width of i is 0, else the value its key has in the table of that width; CHT is the map of its contract."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of, Agg, Lin
REPLAY = "B15.cpp"
LEVEL = "proof"
NOTE = "Array construction, get, set and size and every vector operation (construction, get, set, resize, reserve, shrink_to_fit, push_back, pop_back, clear, the reallocation loop) are proved for every size, index and 64-bit value over the contracts of the fixed-width vector (proved under B06) and of the compact hash table as a map (B14)."
ASSUMPTIONS = ["the compact hash table is a map from keys to values (contract of B14: partly proved, otherwise bounded)", "indices are below size(); fewer than 2^40 elements", "elements a vector exposes by growing without a new allocation are unspecified"]
And, Or, Not, If, Sel = z3.And, z3.Or, z3.Not, z3.If, z3.Select
B = z3.BitVecSort(64); one = bv(1); LIM = bv(1 << 40); CLZ = z3.Function("leading_zeros", B, z3.BitVecSort(32)); TAB, NT, TS = 56, 64, 192
def high(x, k): return If(ule(bv(64), k), bv(0), z3.LShR(x, k))
def key(t, i): return z3.Concat(z3.Extract(15, 0, t), z3.Extract(47, 0, i))
def arrs(): return z3.Const("W0", z3.ArraySort(B, B)), z3.Const("P0", z3.ArraySort(B, z3.BoolSort())), z3.Const("V0", z3.ArraySort(B, B)), z3.Const("KB0", z3.ArraySort(B, B)), z3.Const("VW0", z3.ArraySort(B, B))
def setg(ex, st, **k):
    for n, v in k.items(): st.ghost[n] = v; ex.wrote(("ghost", n))
# ---- contracts used
def m_clz(ex, st, ins, args):
    x = args[0]; r = CLZ(x); n = zx(r); st.assume(ule(n, 64), high(x, 64 - n) == 0, (x == 0) == (n == 64)); return r
m_clz.label = "bit_util::clz (proved under B04)"
def widths(ex, st, p):
    if p.r is not st.ghost["o"] or p.o.const() != 8: raise Unsupported("another width vector")
def m_at(ex, st, ins, args): widths(ex, st, args[1]); ex.safety(st, "width index below the size", ult(args[2], st.ghost["WN"])); st.ghost["refs"] = {**st.ghost.get("refs", {}), args[0].r.id: args[2]}; st.term("i", args[2]); return None
m_at.label = "FitVector::operator[] (proved under B06)"
def m_conv(ex, st, ins, args): return Sel(st.ghost["W"], st.ghost["refs"][args[0].r.id])
m_conv.label = "BitsReference -> value (proved under B06)"
def m_put(ex, st, ins, args): ex.safety(st, "width fits 7 bits", ult(args[1], 128)); setg(ex, st, W=z3.Store(st.ghost["W"], st.ghost["refs"][args[0].r.id], args[1])); return args[0]
m_put.label = "BitsReference = value (proved under B06)"
def m_fv(ex, st, ins, args):
    n = args[2] if len(args) > 2 else bv(0)
    if len(args) > 2: ex.safety(st, "widths up to 64 fit the element width", And(ule(7, args[1]), ule(args[1], 64)))
    if args[0].r is st.ghost["o"]: setg(ex, st, WN=n, W=z3.K(B, bv(0)))
    else: st.ghost["made"] = {**st.ghost.get("made", {}), args[0].r.id: n}
    return None
m_fv.label = "FitVector(width, n): n zeros (proved under B06)"
def m_fvmove(ex, st, ins, args): widths(ex, st, args[0]); setg(ex, st, WN=st.ghost["made"][args[1].r.id], W=z3.K(B, bv(0))); return args[0]
m_fvmove.label = "FitVector move assignment"
def tab(ex, st, p):
    if p.r is not st.ghost["o"]: raise Unsupported("a table of another object")
    d = Lin(p.o.c - TAB, p.o.t).div(TS)
    if d is None or d[1]: raise Unsupported("pointer into a table")
    t = z3.simplify(d[0].bv()); ex.safety(st, "table in bounds", ult(t, NT)); st.term("t", t); return t
def use(ex, st, p, k): t = tab(ex, st, p); g = st.ghost; ex.safety(st, "key fits the key width of the table", high(k, Sel(g["KB"], t)) == 0); return t, key(t, k)
def m_get(ex, st, ins, args): t, k = use(ex, st, args[0], args[1]); g = st.ghost; p = Sel(g["P"], k); return Agg((If(p, bv(1, 8), bv(0, 8)), If(p, Sel(g["VL"], k), bv(0))))
m_get.label = "CHT::get: the value last set and not erased (contract of B14)"
def m_set(ex, st, ins, args):
    t, k = use(ex, st, args[0], args[1]); g = st.ghost; ex.safety(st, "value fits the value width of the table", high(args[2], Sel(g["VW"], t)) == 0); setg(ex, st, P=z3.Store(g["P"], k, z3.BoolVal(True)), VL=z3.Store(g["VL"], k, args[2])); return None
m_set.label = "CHT::set (contract of B14)"
def m_erase(ex, st, ins, args): t, k = use(ex, st, args[0], args[1]); setg(ex, st, P=z3.Store(st.ghost["P"], k, z3.BoolVal(False))); return None
m_erase.label = "CHT::erase (contract of B14)"
def m_cht(ex, st, ins, args):
    if len(args) > 1:
        if args[0].r is st.ghost["o"]: raise Unsupported("table constructed in place")
        ex.safety(st, "key width at most 64", ule(args[1], bv(64, 32))); st.ghost["made"] = {**st.ghost.get("made", {}), args[0].r.id: zx(args[1])}
    return None
m_cht.label = "CHT(key width): an empty map (contract of B14)"
def m_chtmove(ex, st, ins, args): t = tab(ex, st, args[0]); g = st.ghost; setg(ex, st, KB=z3.Store(g["KB"], t, g["made"][args[1].r.id]), VW=z3.Store(g["VW"], t, bv(0))); return args[0]
m_chtmove.label = "CHT move assignment"
def m_vw(ex, st, ins, args): t = tab(ex, st, args[0]); ex.safety(st, "value width 1..64", And(ule(1, zx(args[1])), ule(zx(args[1]), 64))); setg(ex, st, VW=z3.Store(st.ghost["VW"], t, zx(args[1]))); return None
m_vw.label = "CHT::set_value_width of an empty table (contract of B14)"
CH = r"sim_ds::CHT<0u, 50u, sim_ds::SplitMixHash>::"
M = [(re.compile(r"bit_util::clz\("), m_clz), (re.compile(r"FitVector::operator\[\]"), m_at), (re.compile(r"Bits(Const)?Reference<sim_ds::FitVector>::operator unsigned long"), m_conv), (re.compile(r"BitsReference<sim_ds::FitVector>::operator=\(unsigned long"), m_put), (re.compile(r"FitVector::FitVector\(unsigned long"), m_fv),
     (re.compile(r"FitVector::operator="), m_fvmove), (re.compile(r"(FitVector|CHT<.*>)::~"), m_nop), (re.compile(CH + r"get\("), m_get), (re.compile(CH + r"set\("), m_set), (re.compile(CH + r"erase\("), m_erase), (re.compile(CH + r"CHT\("), m_cht), (re.compile(CH + r"operator=\("), m_chtmove), (re.compile(CH + r"set_value_width\("), m_vw)]
# ---- the array
def obj(ex, st, new=False):
    o = ex.new_struct("arr", 12344); r = Region("tables", "array", stride=TS, size=bv(NT), kinds=("t",)); o.inline = [(TAB, NT * TS, r)]; W, P, VL, KB, VW = arrs(); g = st.ghost; g.update(o=o, W=W, P=P, VL=VL, KB=KB, VW=VW, WN=z3.BitVec("widths", 64), kb=z3.BitVec("key_bits", 64)); n = g["n"] = z3.BitVec("n", 64); st.assume(ult(n, LIM))
    if not new: st.mem[(o.id, 0)] = n; g["WN"] = n; st.assume(inv(st, "all"))
    return o
def tables(g, lim): return Forall(lambda t: imp(ult(t, lim), And(Sel(g["KB"], t) == g["kb"], Sel(g["VW"], t) == t + 1)), "t", name="t")
def elem_ok(g, i): w = Sel(g["W"], i); return And(ule(w, 64), imp(w != 0, Sel(g["P"], key(w - 1, i))))
def val(g, i): w = Sel(g["W"], i); return If(w == 0, bv(0), Sel(g["VL"], key(w - 1, i)))
def inv(st, what):
    g = st.ghost; n = g["n"]; return [Forall(lambda i: imp(ult(i, n), And(elem_ok(g, i), high(i, g["kb"]) == 0)), "i", name="i"), tables(g, bv(NT)), ule(g["kb"], 64)]
def wf(ex, st):
    g = st.ghost; n = g["n"]; yield "size", And(ex.cell(st, g["o"], 0) == n, imp(n != 0, g["WN"] == n)); yield "recorded widths have their table entry", Forall(lambda i: imp(ult(i, n), elem_ok(g, i)), "i", name="i"); yield "tables configured", Forall(lambda t: imp(And(n != 0, ult(t, NT)), And(Sel(g["KB"], t) == g["kb"], Sel(g["VW"], t) == t + 1)), "t", name="t"); yield "every index fits the keys", Forall(lambda i: imp(ult(i, n), high(i, g["kb"]) == 0), "i", name="i")
I, X = z3.BitVecs("i v", 64)
def gens(ex, p, st, r):
    g = p.ghost; yield "value written last", r == val(g, I)
    for l in ("W", "P", "VL"): yield f"unchanged {l}", z3.BoolVal(z3.eq(st.ghost[l], g[l]))
def at(f):
    def req(ex, st): o = obj(ex, st); st.assume(ult(I, st.ghost["n"])); st.term("i", I); return [Ptr(o)] + f
    return req
def sens(ex, p, st, r): g, h = p.ghost, st.ghost; yield "the value is written", val(h, I) == X; yield "every other index keeps its value", Forall(lambda j: imp(And(ult(j, g["n"]), j != I), val(h, j) == val(g, j)), "i", name="j"); yield from wf(ex, st)
def nreq(ex, st):
    o = obj(ex, st, True); return [Ptr(o), st.ghost["n"]]
def nens(ex, p, st, r):
    yield from wf(ex, st); g = st.ghost; yield "every index reads zero", Forall(lambda i: imp(ult(i, g["n"]), val(g, i) == 0), "i", name="i")
def nloop(ex, blk, n):
    tables_ptr = any(i.op == "phi" and i.ty.kind == "pointer" for i in blk.insts)
    if tables_ptr:
        def inv0(L): yield "tables in order", ule(L.ix("arr"), NT) if False else z3.BoolVal(True)
        def pos(L): ps = [v for v in L.phis() if isinstance(v, Ptr)]; return Lin(ps[0].o.c - TAB, ps[0].o.t).div(TS)[0].bv()
        def inv1(L): yield "tables in order", ult(pos(L), NT)
        return Loop("default tables", inv1, lambda L: bv(NT) - pos(L))
    def inv2(L):
        st = L.st; g = st.ghost; i = L.int(0, 32); yield "tables so far", And(ule(i, bv(64, 32)), L.ex.cell(st, g["o"], 0) == g["n"], g["WN"] == g["n"]); yield "configured so far", tables(g, zx(i)); yield "no width recorded", Forall(lambda j: imp(ult(j, g["n"]), Sel(g["W"], j) == 0), "i", name="j"); st.term("t", zx(i))
    return Loop("configure the tables", inv2, lambda L: zx(bv(64, 32) - L.int(0, 32)))
mono = ("shifts keep the order", lambda: [])
def nreq2(ex, st):
    a = nreq(ex, st); g = st.ghost; n = g["n"]; g["kb"] = z3.simplify(64 - zx(CLZ(n - 1))); k = g["kb"]
    st.assume(Forall(lambda i: (z3.BoolVal(True), [(None, imp(ule(i, n - 1), ule(high(i, k), high(n - 1, k))))]), "i", name="i")); return a
ARR = [Spec("w_get", at([I]), gens, title="CDRWArray::get"), Spec("re:CDRWArray::set\\(", at([I, X]), sens, title="CDRWArray::set"), Spec("w_size", lambda ex, st: [Ptr(obj(ex, st))], lambda ex, p, st, r: [("size", r == st.ghost["n"])], title="CDRWArray::size"), Spec("w_new", nreq2, nens, loops=nloop, title="CDRWArray(n)")]
# ---- the vector and construction from a range, over the array's contract: contents are one array per object
def con(ex, st, p):
    k = (p.r.id, p.o.const())
    if k not in st.ghost["obj"]: raise Unsupported("unknown array object")
    return k, st.ghost["obj"][k]
def put(ex, st, k, v): st.ghost["obj"] = {**st.ghost["obj"], k: v}; ex.wrote(("ghost", "obj"))
def a_new(ex, st, ins, args): ex.safety(st, "size below 2^41", ult(args[1], LIM << 1)); put(ex, st, (args[0].r.id, args[0].o.const()), "fresh"); k = (args[0].r.id, args[0].o.const()); setg(ex, st, **{f"S{k}": args[1], f"C{k}": z3.K(B, bv(0))}); put(ex, st, k, True); return None
a_new.label = "CDRWArray(n): n zeros (contract above)"
def a_get(ex, st, ins, args): k, _ = con(ex, st, args[0]); g = st.ghost; ex.safety(st, "index below the array's size", ult(args[1], g[f"S{k}"])); st.term("i", args[1]); return Sel(g[f"C{k}"], args[1])
a_get.label = "CDRWArray::get (contract above)"
def a_set(ex, st, ins, args): k, _ = con(ex, st, args[0]); g = st.ghost; ex.safety(st, "index below the array's size", ult(args[1], g[f"S{k}"])); st.term("i", args[1]); setg(ex, st, **{f"C{k}": z3.Store(g[f"C{k}"], args[1], args[2])}); return None
a_set.label = "CDRWArray::set (contract above)"
def a_copy(ex, st, ins, args): k = (args[0].r.id, args[0].o.const()); q, _ = con(ex, st, args[1]); g = st.ghost; put(ex, st, k, True); setg(ex, st, **{f"S{k}": g[f"S{q}"], f"C{k}": g[f"C{q}"]}); return args[0]
a_copy.label = "CDRWArray copy assignment (member-wise)"
AM = [(re.compile(r"CDRWArray::CDRWArray\(unsigned long"), a_new), (re.compile(r"CDRWArray::get\("), a_get), (re.compile(r"CDRWArray::set\("), a_set), (re.compile(r"CDRWArray::operator=\("), a_copy), (re.compile(r"CDRWArray::size\("), lambda ex, st, ins, args: st.ghost[f"S{con(ex, st, args[0])[0]}"]), (re.compile(r"CDRWArray::~"), m_nop)]
def vobj(ex, st, new=False):
    o = ex.new_struct("vec", 16 + 12344); g = st.ghost; n, c = z3.BitVecs("n cap", 64); k = (o.id, 16); g.update(o=o, k=k, obj={k: True}, n=n, cap=c)
    g[f"S{k}"] = c; g[f"C{k}"] = z3.Const("contents", z3.ArraySort(B, B)); g["C0"] = g[f"C{k}"]; st.assume(ule(n, c), ult(c, LIM))
    if not new: st.mem[(o.id, 0)], st.mem[(o.id, 8)] = n, c
    return o
def view(ex, st): g = st.ghost; k = g["k"]; return ex.cell(st, g["o"], 0), ex.cell(st, g["o"], 8), g[f"S{k}"], g[f"C{k}"]
def vwf(ex, st): n, c, s, C = view(ex, st); yield "size within the capacity", ule(n, c); yield "capacity is the array's size", c == s
def kept(ex, st, lim): C = view(ex, st)[3]; g = st.ghost; return Forall(lambda j: imp(ult(j, lim), Sel(C, j) == Sel(g["C0"], j)), "i", name="j")
def vop(fn, title, args, pre, post, models=()):
    def req(ex, st): o = vobj(ex, st, fn == "w_vnew"); a = [z3.BitVec(x, 64) for x in args]; st.ghost["a"] = a; st.assume(*pre(st.ghost, *a)); [st.term("i", x) for x in a]; return [Ptr(o)] + a
    def ens(ex, p, st, r): yield from post(ex, st, st.ghost, r, *st.ghost["a"]); yield from vwf(ex, st)
    return Spec(fn, req, ens, title="CDRWVector::" + title, models=models)
lt = lambda g, i, *a: [ult(i, g["n"])]; lim = lambda g, k: [ult(k, LIM)]; none = lambda g, *a: []
sz = lambda ex, st, n: ("length", view(ex, st)[0] == n)
def m_alloc(ex, st, ins, args):
    g = st.ghost; n, c, s, C = view(ex, st); k = g["k"]; nc = args[1]; ex.safety(st, "new capacity covers the elements", ule(n, nc)); ex.safety(st, "capacity below 2^41", ult(nc, LIM << 1)); D = z3.Const(f"contents!{len(st.hyps) if hasattr(st, 'hyps') else 0}", z3.ArraySort(B, B)) if False else fresh_arr("contents", 64)
    st.assume(Forall(lambda j: imp(ult(j, n), Sel(D, j) == Sel(C, j)), "i", name="j")); st.mem[(g["o"].id, 8)] = nc; ex.wrote((g["o"].id, 8)); setg(ex, st, **{f"S{k}": nc, f"C{k}": D}); return None
m_alloc.label = "CDRWVector::_allocate (contract above)"
def aloop(ex, blk, n):
    def inv(L):
        st = L.st; g = st.ghost; i = L.int(); nk = [k for k in g["obj"] if k != g["k"]][0]; v = view(L.ex, st); st.term("i", i)
        yield "elements so far", And(ule(i, g["n"]), v[0] == g["n"], g[f"S{nk}"] == g["a"][0], v[2] == g["cap"]); yield "copied in order", Forall(lambda j: imp(ult(j, i), Sel(g[f"C{nk}"], j) == Sel(g["C0"], j)), "i", name="j"); yield "source unchanged", kept(L.ex, st, g["n"])
    return Loop("copy the elements", inv, lambda L: L.st.ghost["n"] - L.int())
ALLOC = vop("re:CDRWVector::_allocate\\(", "_allocate", ["new_cap"], lambda g, c: [ule(g["n"], c), ult(c, LIM << 1)], lambda ex, st, g, r, c: [sz(ex, st, g["n"]), ("capacity", view(ex, st)[1] == c), ("every element kept", kept(ex, st, g["n"]))]); ALLOC.loops = aloop
K = [(re.compile(r"CDRWVector::_allocate\("), m_alloc)]
VECS = [vop("w_vnew", "CDRWVector(n)", ["k"], lim, lambda ex, st, g, r, k: [sz(ex, st, k), ("every element is zero", Forall(lambda j: imp(ult(j, k), Sel(view(ex, st)[3], j) == 0), "i", name="j"))]),
        vop("w_vget", "get", ["i"], lt, lambda ex, st, g, r, i: [("value written last", r == Sel(g["C0"], i)), sz(ex, st, g["n"]), ("elements kept", kept(ex, st, g["n"]))]),
        vop("w_vset", "set", ["i", "v"], lt, lambda ex, st, g, r, i, v: [sz(ex, st, g["n"]), ("only this index changes", Forall(lambda j: imp(ult(j, g["n"]), Sel(view(ex, st)[3], j) == If(j == i, v, Sel(g["C0"], j))), "i", name="j"))]),
        vop("w_vsize", "size", [], none, lambda ex, st, g, r: [("size", r == g["n"])]), vop("w_vcap", "capacity", [], none, lambda ex, st, g, r: [("room for the elements", ule(g["n"], r))]), vop("w_vempty", "empty", [], none, lambda ex, st, g, r: [("no elements", r == (g["n"] == 0))]),
        vop("w_vresize", "resize", ["k"], lim, lambda ex, st, g, r, k: [sz(ex, st, k), ("surviving elements kept", kept(ex, st, If(ult(k, g["n"]), k, g["n"])))]),
        vop("w_vreserve", "reserve", ["k"], lim, lambda ex, st, g, r, k: [sz(ex, st, g["n"]), ("elements kept", kept(ex, st, g["n"])), ("room", ule(k, view(ex, st)[1]))]),
        vop("w_vshrink", "shrink_to_fit", [], none, lambda ex, st, g, r: [sz(ex, st, g["n"]), ("elements kept", kept(ex, st, g["n"]))]),
        vop("w_vpush", "push_back", ["v"], none, lambda ex, st, g, r, v: [sz(ex, st, g["n"] + 1), ("the value is last", Sel(view(ex, st)[3], g["n"]) == v), ("elements kept", kept(ex, st, g["n"]))]),
        vop("w_vpop", "pop_back", [], none, lambda ex, st, g, r: [sz(ex, st, If(g["n"] == 0, bv(0), g["n"] - 1)), ("remaining elements kept", kept(ex, st, If(g["n"] == 0, bv(0), g["n"] - 1)))]),
        vop("w_vclear", "clear", [], none, lambda ex, st, g, r: [sz(ex, st, bv(0))])]
def freq(ex, st):
    o = ex.new_struct("arr", 12344); n = z3.BitVec("n", 64); st.assume(ult(n, LIM)); a = ex.new_array(st, "src", 8, n, readonly=True, kinds=("i",)); st.ghost.update(o=o, k=(o.id, 0), obj={}, n=n, src=ex.arr(st, a)); return [Ptr(o), Ptr(a), Ptr(a, lin_of(n).mul(8))]
def floop(ex, blk, k):
    def inv(L):
        st = L.st; g = st.ghost; i = L.ix("src"); C = g[f"C{g['k']}"]; st.term("i", i); yield "elements so far", And(ule(i, g["n"]), g[f"S{g['k']}"] == g["n"]); yield "in order", Forall(lambda j: imp(ult(j, i), Sel(C, j) == Sel(g["src"], j)), "i", name="j")
    return Loop("copy the range", inv, lambda L: L.st.ghost["n"] - L.ix("src"), roles={"src": "src"})
FROM = Spec("w_from", freq, lambda ex, p, st, r: [("size", st.ghost[f"S{st.ghost['k']}"] == st.ghost["n"]), ("elements in order", Forall(lambda j: imp(ult(j, st.ghost["n"]), Sel(st.ghost[f"C{st.ghost['k']}"], j) == Sel(st.ghost["src"], j)), "i", name="j"))], loops=floop, title="CDRWArray(range)")
def units():
    A = [r"FitVector::", r"Bits(Const)?Reference<", r"SplitMixHash>::[~\w]+", r"bit_util::clz", r"CDRWArray::set\("]
    return [dict(tu="cdrw.cpp", keep=A, specs=ARR, models=M + THROW), dict(tu="cdrw.cpp", keep=[r"CDRWArray::(CDRWArray\(unsigned long|set\()"], specs=[FROM], models=AM + THROW), dict(tu="cdrw.cpp", keep=[r"CDRWArray::", r"CDRWVector::_allocate"], specs=[ALLOC], models=AM + THROW), dict(tu="cdrw.cpp", keep=[r"CDRWArray::", r"CDRWVector::_allocate"], specs=VECS, models=K + AM + THROW)]
def lemmas():
    a, b, k = z3.BitVecs("a b k", 64); return [("shifts keep the order", [ule(a, b)], ule(high(a, k), high(b, k)), "bv")]
