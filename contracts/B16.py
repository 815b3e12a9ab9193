"""Initializable arrays.  val(i) = the value an index stands for, a function of the representation (folklore: the stamped value or the initial value; in-place: chains between blocks of two cells)."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of
REPLAY = "B16.cpp"
LEVEL = "proof"
NOTE = "Construction, get, set, init/fill, size and operator[] of both arrays are proved for every reachable and unreachable memory content: after construction and after fill every index reads the fill value whatever the memory held, set changes exactly its index; the in-place array is proved for its unspecified initial memory and several element types and sizes."
ASSUMPTIONS = ["in-place array: proved for <uint8_t,256>, <uint8_t,77>, <uint16_t,5000>, <uint32_t,1001>, <uint16_t,1>; other sizes, 64-bit and floating element types through the replay harness (bounded)", "folklore array: fewer than 2^57 elements; the record of written indices is shorter than 2^57 (each index is recorded at most once between fills)"]
BOUNDED = ["in-place arrays of 64-bit, float and double elements and of other sizes: sampled histories over adversarial initial memory (replay harness)"]
And, Or, Not, If, Sel = z3.And, z3.Or, z3.Not, z3.If, z3.Select
one = bv(1); two = bv(2)
# ---- folklore
def folk(w):
    b = w // 8; VL = VecLib(sizes={f"std::pair<unsigned long, {t}>": (16, [(0, 64), (8, w)]) for t in ("unsigned char", "unsigned int", "unsigned long")}, name=lambda p: {8: "cells"}.get(p.o.const()), kinds=lambda p: ("k",)); OFF = 8
    def obj(ex, st):
        g = st.ghost; o = ex.new_struct("array", 56); n, l = z3.BitVecs("n recorded", 64); g.update(o=o, n=n); st.assume(ult(n, bv(1 << 56)), ult(l, bv(1 << 56)))
        r = Region("cells", "array", stride=16, size=n, kinds=("k",)); st.mem[(r.id, 0, 64)] = fresh_arr("cells.first", 64); st.mem[(r.id, 8, w)] = fresh_arr("cells.second", w); ex.bind_vec(st, o, OFF, r, n)
        ex.make_vec(st, o, 32, "record", 8, l, kinds=("k",)); st.mem[(o.id, 0)] = z3.BitVec("initial", w); g["V0"] = val(ex, st)
        return o
    def val(ex, st):
        o = st.ghost["o"]; r = st.vecs[(o.id, OFF)]; F, S = ex.arr(st, r, 0, 64), ex.arr(st, r, 8, w); t = st.vecs.get((o.id, 32)); iv = ex.cell(st, o, 0, w)
        if t is None: return lambda i: iv
        R = ex.arr(st, t); l = t.size; return lambda i: If(And(ult(Sel(F, i), l), Sel(R, Sel(F, i)) == i), Sel(S, i), iv)
    def at(ex, st, i): st.assume(ult(i, st.ghost["n"])); return i
    def same_size(ex, st): return st.vecs[(st.ghost["o"].id, OFF)].size == st.ghost["n"]
    idx = lambda ex, st: at(ex, st, z3.BitVec("i", 64)); v = z3.BitVec("v", w)
    def every(ex, st, f, name="x"): n = st.ghost["n"]; V = val(ex, st); return Forall(lambda j: imp(ult(j, n), f(V, j)), "k", name=name)
    def e_get(ex, p, st, r): V = st.ghost["V0"]; yield "value of the index", r == V(z3.BitVec("i", 64)); yield "array unchanged", every(ex, st, lambda W, j: W(j) == V(j))
    def e_set(ex, p, st, r): V = st.ghost["V0"]; yield "size kept", same_size(ex, st); yield "exactly this index changes", every(ex, st, lambda W, j: W(j) == If(j == z3.BitVec("i", 64), v, V(j)))
    def e_init(ex, p, st, r): yield "size kept", same_size(ex, st); yield "every index reads the fill value", every(ex, st, lambda W, j: W(j) == v)
    def r_new(ex, st): n = z3.BitVec("n", 64); st.assume(ult(n, bv(1 << 56))); o = ex.new_struct("array", 56); st.ghost.update(o=o, n=n); return [Ptr(o), n, v]
    def r_from(ex, st):
        n = z3.BitVec("n", 64); st.assume(ult(n, bv(1 << 56))); o = ex.new_struct("array", 56); a = ex.new_array(st, "src", b, n, readonly=True, kinds=("k",)); st.ghost.update(o=o, n=n, src=ex.arr(st, a)); return [Ptr(o), Ptr(a), Ptr(a, lin_of(n).mul(b))]
    def l_from(ex, blk, k):
        def inv(L):
            st = L.st; g = st.ghost; i = L.ix("src"); V = val(L.ex, st); st.term("k", i); st.term("k", i - 1)
            yield "position", And(ule(i, g["n"]), same_size(L.ex, st)); t = st.vecs.get((g["o"].id, 32)); yield "at most one record per element", ule(t.size, i) if t is not None else i == 0
            yield "elements so far", Forall(lambda j: imp(ult(j, i), V(j) == Sel(g["src"], j)), "k", name="x")
        return Loop("copy", inv, lambda L: L.st.ghost["n"] - L.ix("src"), roles={"src": "src"})
    def e_from(ex, p, st, r): yield "size", same_size(ex, st); yield "elements in order", every(ex, st, lambda W, j: W(j) == Sel(st.ghost["src"], j))
    N = f"w_f{w}_"
    mk = lambda f, req, ens, t, **k: Spec(N + f, req, ens, title=f"InitializableArrayFolklore<{w} bit>::{t}", **k)
    specs = [mk("new", r_new, e_init, "constructor"), mk("from", r_from, e_from, "constructor from a range", loops=l_from), mk("get", lambda ex, st: [Ptr(obj(ex, st)), idx(ex, st)], e_get, "get"), mk("set", lambda ex, st: [Ptr(obj(ex, st)), idx(ex, st), v], e_set, "set"),
             mk("init", lambda ex, st: [Ptr(obj(ex, st)), v], e_init, "init"), mk("fill", lambda ex, st: [Ptr(obj(ex, st)), v], e_init, "fill"), mk("size", lambda ex, st: [Ptr(obj(ex, st))], lambda ex, p, st, r: [("size", r == st.ghost["n"])], "size")]
    return specs, VL
# ---- in place
def inplace(nm, w, N):
    A = N + N % 2; H = A // 2; v = z3.BitVec("v", w); i = z3.BitVec("i", 64); boff = 8; aoff = 16
    def rep(ex, st):
        o = st.ghost["o"]; a = ex.arr(st, st.ghost["a"]); b = ex.cell(st, o, boff); iv = ex.cell(st, o, 0, w); return a, b, iv
    def val(a, b, iv):
        to = lambda x: zx(Sel(a, x))
        def linked(c):      # block c is chained to another block across the border b
            k = to(2 * c); h = z3.LShR(k, one); return And(ult(k, bv(A)), k & one == 0, to(k) == 2 * c, Or(And(ult(c, b), ule(b, h)), And(ult(h, b), ule(b, c)))), h
        def f(x):
            c = z3.LShR(x, one); l, h = linked(c); return If(ult(c, b), If(l, iv, Sel(a, x)), If(l, If(x & one == 0, Sel(a, 2 * h + 1), Sel(a, x)), iv))
        f.linked = linked; return f
    def obj(ex, st):
        o = ex.new_struct("array", 16 + A * w // 8); a = Region("blocks", "array", stride=w // 8, size=bv(A), kinds=("k",)); st.mem[(a.id, 0, w)] = fresh_arr("blocks", w); o.inline = [(aoff, A * w // 8, a)]; st.ghost.update(o=o, a=a); return o
    def old(ex, st):
        o = obj(ex, st); st.mem[(o.id, 0)] = z3.BitVec("initial", w); b = z3.BitVec("border", 64); st.mem[(o.id, boff)] = b; st.assume(ule(b, bv(H))); st.ghost["R0"] = rep(ex, st); st.ghost["V0"] = val(*rep(ex, st)); return o
    def at(ex, st): st.assume(ult(i, bv(N))); return i
    def border(ex, st): return "border within the array", ule(rep(ex, st)[1], bv(H))
    def every(ex, st, f): V = val(*rep(ex, st)); return Forall(lambda j: imp(ult(j, bv(N)), f(V(j), j)), "k", name="x")
    def e_get(ex, p, st, r): V = st.ghost["V0"]; yield "value of the index", r == V(i); yield "array unchanged", every(ex, st, lambda x, j: x == V(j)); yield border(ex, st)
    def e_set(ex, p, st, r):
        V = st.ghost["V0"]; a, b, iv = st.ghost["R0"]; c = z3.LShR(i, one); l, h = V.linked(c); lb, hb = V.linked(b); bj = lambda j: z3.LShR(j, one); yield border(ex, st)
        cells = [("the index", lambda j: j == i), ("the other cell of its block", lambda j: And(j != i, bj(j) == c)), ("its partner block", lambda j: And(bj(j) != c, l, bj(j) == h)), ("the border block", lambda j: And(bj(j) != c, Not(And(l, bj(j) == h)), bj(j) == b)),
                 ("the border block's partner", lambda j: And(bj(j) != c, Not(And(l, bj(j) == h)), bj(j) != b, lb, bj(j) == hb)), ("any other block", lambda j: And(bj(j) != c, Not(And(l, bj(j) == h)), bj(j) != b, Not(And(lb, bj(j) == hb))))]
        o = cells.pop()[1]
        for t, f in cells: yield "exactly this index changes: " + t, every(ex, st, lambda x, j: imp(f(j), x == If(j == i, v, V(j))))
        W = val(*rep(ex, st)); a2, b2, iv2 = rep(ex, st); x = fresh("x"); d = bj(x); k = zx(Sel(a, 2 * d)); hd = z3.LShR(k, one); touched = [("the index's block", c), ("that block's partner", h), ("the border block", b), ("the border block's partner", hb)]
        far = And(ult(x, bv(N)), o(x)); cell = lambda z: Sel(a2, z) == Sel(a, z)
        l1, l2 = V.linked(d)[0], W.linked(d)[0]
        for n, (t, q) in enumerate(touched + [("no touched block", None)]):
            w = And(far, *[hd != z for _, z in touched[:n]]) if q is None else And(far, hd == q, *[hd != z for _, z in touched[:n]]); s2 = st.copy(); s2.assume(w)
            by(ex, s2, f"blocks pointing at {t} keep their meaning", W(x) == V(x), [iv2 == iv, ult(d, b) == ult(d, b2), imp(Or(l1, ult(d, b)), And(cell(2 * d), cell(2 * d + 1))), imp(And(l1, ule(b, d)), cell(2 * hd + 1)), l1 == l2], False)
    def e_init(ex, p, st, r): yield "every index reads the fill value", every(ex, st, lambda x, j: x == v); yield border(ex, st)
    ty = {8: "unsigned char", 16: "unsigned short", 32: "unsigned int"}[w]; cls = rf"_InitializableArray<{ty}, {N}ul, true>::"
    blk = z3.BitVec("c", 64)
    def mine(ex, st, p): ex.safety(st, "helper works on this array", z3.BoolVal(p.r is st.ghost["o"] and p.o.const() == 0))
    # helpers: contracts proved below, assumed at the call sites
    def chain_of(ex, st, c): l, h = val(*rep(ex, st)).linked(c); return If(l, h, bv(H))
    def broken(ex, st, c): a, b, iv = rep(ex, st); l, h = val(a, b, iv).linked(c); return If(l, z3.Store(a, 2 * h, z3.Extract(w - 1, 0, 2 * h)), a)
    def m_chain(ex, st, ins, args): mine(ex, st, args[0]); ex.safety(st, "_chained_to: block exists", ult(args[1], bv(H))); r = fresh("partner"); st.assume(r == chain_of(ex, st, args[1])); return r
    def m_break(ex, st, ins, args): mine(ex, st, args[0]); ex.safety(st, "_break_chain: block exists", ult(args[1], bv(H))); x = broken(ex, st, args[1]); n = fresh_arr("blocks", w); st.assume(n == x); ex.set_arr(st, st.ghost["a"], n, 0, w); return None
    m_chain.label = "_chained_to (contract proved in this check)"; m_break.label = "_break_chain (contract proved in this check)"
    helpers = [(re.compile(cls + r"_chained_to\("), m_chain), (re.compile(cls + r"_break_chain\("), m_break)]
    def r_help(ex, st): o = old(ex, st); st.assume(ult(blk, bv(H))); st.ghost["want"] = (chain_of(ex, st, blk), broken(ex, st, blk), rep(ex, st)); return [Ptr(o), blk]
    def same(ex, st): a, b, iv = rep(ex, st); a0, b0, iv0 = st.ghost["want"][2]; return And(b == b0, iv == iv0)
    def e_chain(ex, p, st, r): yield "partner of the block", r == st.ghost["want"][0]; yield "array unchanged", And(rep(ex, st)[0] == st.ghost["want"][2][0], same(ex, st))
    def e_break(ex, p, st, r): yield "exactly the partner's link is cut", And(rep(ex, st)[0] == st.ghost["want"][1], same(ex, st))
    def wrap(f, t, target, put):
        """operator[] hands over to get / set"""
        def req(ex, st): return [Ptr(old(ex, st)), at(ex, st)] + ([v] if put else [])
        def m(ex, st, ins, args):
            mine(ex, st, args[0]); ex.safety(st, f"{target} gets the index" + (" and the value" if put else ""), And(args[1] == i, args[2] == v) if put else args[1] == i)
            g = st.ghost; g["n"] = g.get("n", 0) + 1; g["r"] = fresh("got", w); return None if put else g["r"]
        m.label = f"{target} (contract proved in this check)"
        def ens(ex, p, st, r): yield f"exactly one {target}", z3.BoolVal(st.ghost.get("n") == 1) if put else And(z3.BoolVal(st.ghost.get("n") == 1), r == st.ghost["r"])
        return Spec(f"w_{nm}_{f}", req, ens, title=f"InitializableArray<{w} bit,{N}>::{t}", models=[(re.compile(cls + target + r"\("), m)])
    mk = lambda f, req, ens, t, **k: Spec(f"w_{nm}_{f}" if f[:3] != "re:" else f, req, ens, title=f"InitializableArray<{w} bit,{N}>::{t}", **k)
    top = [mk("new", lambda ex, st: [Ptr(obj(ex, st)), v], e_init, "constructor"), mk("get", lambda ex, st: [Ptr(old(ex, st)), at(ex, st)], e_get, "get", models=helpers), mk("set", lambda ex, st: [Ptr(old(ex, st)), at(ex, st), v], e_set, "set", models=helpers)] + \
           [mk(f, lambda ex, st: [Ptr(old(ex, st)), v], e_init, f) for f in ("init", "fill")] + [mk("size", lambda ex, st: [Ptr(old(ex, st))], lambda ex, p, st, r: [("size", r == bv(N))], "size")]
    low = [mk("re:" + cls + r"_chained_to\(", r_help, e_chain, "_chained_to"), mk("re:" + cls + r"_break_chain\(", r_help, e_break, "_break_chain", models=helpers[:1])]
    return top + low, [wrap("at", "operator[] const", "get", False), wrap("ref", "operator[] read", "get", False), wrap("put", "operator[] write", "set", True)]
INPLACE = [("i8", 8, 256), ("i8o", 8, 77), ("i16", 16, 5000), ("i32", 32, 1001), ("i1", 16, 1)]
def units():
    out = []
    for w in (8, 32, 64): s, VL = folk(w); out.append(dict(tu="initarr.cpp", keep=KEEP_VEC, specs=s, models=VL.models() + THROW))
    S = [inplace(*a) for a in INPLACE]
    out.append(dict(tu="initarr.cpp", keep=[r"_InitializableArray<.*>::_(chained_to|break_chain)\("], specs=[s for a, b in S for s in a], models=THROW))
    out.append(dict(tu="initarr.cpp", keep=[r"_InitializableArray<.*>::(get|set)\("], specs=[s for a, b in S for s in b], models=THROW))
    return out
