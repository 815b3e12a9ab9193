"""Trie.  Ghost state: E(node,c) = the child of node along c (0 = none) -- the contents of the nodes' std::maps; PA/CH = parent and label of a node; IO = node owning an item;
P = the nodes along the key being inserted or looked up, IX = position of a new node on that path."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of, Agg, Lin
REPLAY = "B22.cpp"
LEVEL = "proof"
NOTE = "insert is proved, for every trie and key (NULs included), to keep the node table a tree (one labelled in-edge per node, from a smaller index), to leave every old path, item and value in place and to add exactly the nodes of the key's path; traverse finds exactly the full paths that carry an item. dfs/bfs are only exercised by the replay."
ASSUMPTIONS = ["fewer than 2^56 nodes (size_t) / 2^31-1 nodes and items (int), so that the size type can number them", "std::vector and std::map (empty, find, end, try_emplace) are their contracts; moving a node on reallocation keeps its edges"]
BOUNDED = ["Trie::dfs, Trie::bfs, _Node::for_each_edge: replay only, random key sets of up to 60 keys"]
And, Or, Not, If, Sel, Sto = z3.And, z3.Or, z3.Not, z3.If, z3.Select, z3.Store
B = z3.BitVecSort(64); A64, A8 = z3.ArraySort(B, B), z3.ArraySort(B, z3.BitVecSort(8))
def pk(s, c): return z3.Concat(z3.Extract(55, 0, s), c)
def ks(k): return z3.LShR(k, 8)
def kc(k): return z3.Extract(7, 0, k)
NUL = bv(0, 8)
class Kind:
    def __init__(s, tag, w, vw, t): s.tag, s.w, s.vw, s.empty, s.lim, s.t = tag, w, vw, bv((1 << 64) - 1 if w == 64 else (1 << 31) - 1, w), bv(1 << 56) if w == 64 else bv((1 << 31) - 2), t
Z = Kind("z", 64, 32, "Trie<unsigned int, unsigned long>"); I = Kind("i", 32, 64, "Trie<unsigned long, int>")
class View:
    def __init__(v, ex, st, K):
        o = st.ghost["o"]; v.K = K; r, _, v.N = ex.vec(st, o, 0); v.IT = ex.arr(st, r, 0, K.w); _, v.S, v.SN = ex.vec(st, o, 24); g = st.ghost
        v.E, v.PA, v.CH, v.IO = g["E"], g["PA"], g["CH"], g["IO"]
    def item(v, m): return sx(Sel(v.IT, m)) if v.K.w == 32 else Sel(v.IT, m)
    def none(v, m): return Sel(v.IT, m) == v.K.empty
def wf(v):
    K = v.K
    yield "sizes", And(v.N != 0, ule(v.N, K.lim), ule(v.SN, K.lim))
    def edge(k): m = Sel(v.E, k); return (imp(m != 0, And(ult(ks(k), m), ult(m, v.N), Sel(v.PA, m) == ks(k), Sel(v.CH, m) == kc(k))), [("m", m)])
    yield "edges lead to a later node that knows its parent and label", Forall(edge, "k", name="k")
    def parent(m): k = pk(Sel(v.PA, m), Sel(v.CH, m)); return (imp(And(m != 0, ult(m, v.N)), And(ult(Sel(v.PA, m), m), Sel(v.E, k) == m)), [("k", k)])
    yield "every node but the root hangs on an edge", Forall(parent, "m", name="m")
    def item(m): i = v.item(m); return (imp(And(ult(m, v.N), Not(v.none(m))), And(m != 0, Sel(v.CH, m) == 0, ult(i, v.SN), Sel(v.IO, i) == m)), [("i", i)])
    yield "items belong to the end of a key and to one node each", Forall(item, "m", name="m")
def trie(ex, st, K):
    o = ex.new_struct("trie", 48); n, s = z3.BitVecs("n s", 64); ex.make_vec(st, o, 0, "nodes", 56, n, K.w, kinds="m"); ex.make_vec(st, o, 24, "items", K.vw // 8, s, K.vw, kinds="i")
    st.ghost.update(o=o, E=z3.Const("E", A64), PA=z3.Const("PA", A64), CH=z3.Const("CH", A8), IO=z3.Const("IO", A64), P=Sto(z3.Const("P", A64), bv(0), bv(0)), IX=z3.Const("IX", A64), pos=bv(0)); v = View(ex, st, K); st.assume(*[f for _, f in wf(v)]); return o
def setg(ex, st, **k):
    for n, x in k.items(): st.ghost[n] = x; ex.wrote(("ghost", n))
def node_of(ex, st, p):
    i = ex.idx_of(st, p); ex.safety(st, "node in range", ult(i, p.r.size)); return i
def m_target(K):
    def f(ex, st, ins, args):
        i = node_of(ex, st, args[0]); k = z3.simplify(pk(i, args[1])); m = Sel(st.ghost["E"], k); st.term("k", k); st.term("m", m); st.term("m", i); g = st.ghost; q = z3.simplify(g["pos"] + 1); N = ex.vec(st, g["o"], 0)[2]; m2 = If(m != 0, m, N)
        setg(ex, st, pos=q, P=Sto(g["P"], q, m2), IX=Sto(g["IX"], N, q)); st.term("q", q); ex.safety(st, "child index fits the size type", m == sx(z3.Extract(K.w - 1, 0, m))); return z3.Extract(K.w - 1, 0, m) if K.w < 64 else m
    f.label = "_Node::target (contract below)"; return f
def m_add(K):
    def f(ex, st, ins, args):
        i = node_of(ex, st, args[0]); k = z3.simplify(pk(i, args[1])); t = sx(args[2]); g = st.ghost; E = g["E"]; ex.safety(st, "add: target is not the root", t != 0); st.term("k", k); st.term("m", t)
        new = Sel(E, k) == 0; pick = (lambda a, b: a) if ex.quick(st, new) else (lambda a, b: If(new, a, b)); t = z3.simplify(t)
        setg(ex, st, E=pick(Sto(E, k, t), E), PA=pick(Sto(g["PA"], t, i), g["PA"]), CH=pick(Sto(g["CH"], t, kc(k)), g["CH"])); return new
    f.label = "_Node::add (contract below)"; return f
def m_emplace(K):
    def f(ex, st, ins, args):
        p = args[0]; old = st.vecs.get((p.r.id, p.o.const())); n = old.size if old is not None else bv(0); st.assume(ult(n, K.lim)); r = Region("nodes", "array", stride=56, size=z3.simplify(n + 1), kinds="m")
        if len(args) != 1: raise Unsupported("emplace_back(arguments)")
        st.mem[(r.id, 0, K.w)] = Sto(ex.arr(st, old, 0, K.w) if old is not None else fresh_arr("nodes", K.w), n, K.empty); st.term("m", n)
        if "E" in st.ghost: ex.safety(st, "emplace_back: capacity", True)
        if old is not None: st.dead.add(old.id)
        ex.bind_vec(st, p.r, p.o.const(), r, r.size)
        for j in range(3): ex.wrote((p.r.id, p.o.const() + 8 * j))
        return Ptr(r, lin_of(n).mul(56))
    f.label = "std::vector<_Node>::emplace_back(): one more node, built by _Node() (contract below)"; return f
LIBP = VecLib()
def m_push(K):
    def f(ex, st, ins, args): st.assume(ult(st.vecs[(args[0].r.id, args[0].o.const())].size, K.lim)); return LIBP.push(ex, st, ins, args)
    f.label = "std::vector<item>::push_back (trusted library contract; item count below the size type's maximum)"; return f
def models(K): return [(re.compile(r"^std::vector<unsigned (int|long), .*>::push_back\("), m_push(K)), (re.compile(r"_Node<.*>::target\("), m_target(K)), (re.compile(r"_Node<.*>::add\("), m_add(K)), (re.compile(r"_Node<.*emplace_back<"), m_emplace(K))]
def keyed(ex, st, K):
    o = trie(ex, st, K); n = z3.BitVec("len", 64); st.assume(ult(n, bv(1 << 60))); t = ex.new_array(st, "key", 1, n, 8); st.ghost.update(key=t, len=n, K0=ex.arr(st, t, 0, 8)); st.term("m", bv(0)); return o, Ptr(t), n
def path(st, v, upto):
    """the ghost path: P[0] = root, each step along the key's character"""
    g = st.ghost; P, Q = g["P"], g["K0"]
    def step(q): k = pk(Sel(P, q), Sel(Q, q)); return (imp(ult(q, upto), And(Sel(v.E, k) == Sel(P, q + 1), Sel(P, q + 1) != 0, ult(Sel(P, q + 1), v.N))), [("k", k), ("m", Sel(P, q + 1))])
    yield "path starts at the root", Sel(P, bv(0)) == 0
    yield "path follows the key", Forall(step, "q", name="q")
def grown(st, o, v, last):
    g = st.ghost; P, IX = g["P"], g["IX"]
    yield "nodes and edges stay", And(ule(o.N, v.N))
    yield "old edges stay, new ones lead to new nodes", Forall(lambda k: Or(Sel(v.E, k) == Sel(o.E, k), And(Sel(o.E, k) == 0, ule(o.N, Sel(v.E, k)))), "k", name="k")
    yield "only nodes of the key's path are new", Forall(lambda m: (imp(And(ule(o.N, m), ult(m, v.N)), And(Sel(IX, m) != 0, ule(Sel(IX, m), last), Sel(P, Sel(IX, m)) == m)), [("q", Sel(IX, m))]), "m", name="m")
def insert_spec(K):
    def req(ex, st):
        o, a, n = keyed(ex, st, K); x = z3.BitVec("item", K.vw); st.ghost.update(x=x, v0=View(ex, st, K)); return [Ptr(o), a, n, x]
    def loops(ex, blk, nn):
        def inv(L):
            st = L.st; g = st.ghost; v = View(ex, st, K); i = L.ix("key"); node = L.v("node"); st.term("q", i); st.term("m", node); st.term("m", v.N)
            yield "position", And(ule(i, g["len"]), g["pos"] == i, node == Sel(g["P"], i), ult(node, v.N)); yield from wf(v); yield from path(st, v, i); yield from grown(st, g["v0"], v, i)
            yield "items stay", Forall(lambda m: imp(ult(m, v.N), Sel(v.IT, m) == If(ult(m, g["v0"].N), Sel(g["v0"].IT, m), K.empty)), "m", name="m")
        return Loop("walk the key", inv, lambda L: L.st.ghost["len"] - L.ix("key"), roles={"node": 64})
    def ens(ex, p, st, r):
        g = st.ghost; o, v = p.ghost["v0"], View(ex, st, K); n = g["len"]; P = g["P"]; leaf = Sel(P, n + 1); st.term("q", n); st.term("m", leaf); st.term("q", n + 1); st.term("m", v.N)
        it = v.item(leaf); st.term("i", it); st.term("i", o.SN); io = If(o.none(leaf), Sto(o.IO, o.SN, leaf), o.IO)
        io = If(And(ult(leaf, o.N), Not(o.none(leaf))), o.IO, Sto(o.IO, o.SN, leaf)); v.IO = io
        yield from wf(v); yield from path(st, v, n); yield "the path ends in a leaf", And(Sel(v.E, pk(Sel(P, n), NUL)) == leaf, leaf != 0, ult(leaf, v.N)); yield from grown(st, o, v, n + 1)
        yield "returns the key's item", And(r.r is not None and r.r.name.rstrip("'") == "items" and r.r.id not in st.dead, ex.idx_of(st, r) == it, Not(v.none(leaf)))
        yield "which holds the value", Sel(v.S, it) == g["x"]
        yield "an existing key keeps its item", imp(And(ult(leaf, o.N), Not(o.none(leaf))), And(it == o.item(leaf), v.SN == o.SN)); yield "a new key gets a new item", imp(Not(And(ult(leaf, o.N), Not(o.none(leaf)))), And(it == o.SN, v.SN == o.SN + 1))
        yield "other items stay", Forall(lambda i: imp(And(ult(i, o.SN), i != it), Sel(v.S, i) == Sel(o.S, i)), "i", name="i")
        yield "other nodes keep their item, new inner nodes have none", Forall(lambda m: imp(And(ult(m, v.N), m != leaf), Sel(v.IT, m) == If(ult(m, o.N), Sel(o.IT, m), K.empty)), "m", name="m")
    return Spec(f"w_insert_{K.tag}", req, ens, loops=loops, title=f"{K.t}::insert", models=models(K))
def traverse_spec(K):
    def req(ex, st): o, a, n = keyed(ex, st, K); return [Ptr(o), a, n]
    def loops(ex, blk, nn):
        def inv(L):
            st = L.st; g = st.ghost; v = View(ex, st, K); i = L.ix("key"); node = L.v("node"); st.term("q", i); st.term("m", node)
            yield "position", And(ule(i, g["len"]), g["pos"] == i, node == Sel(g["P"], i), ult(node, v.N)); yield from path(st, v, i)
        return Loop("walk the key", inv, lambda L: L.st.ghost["len"] - L.ix("key"), roles={"node": 64})
    def ens(ex, p, st, r):
        g = st.ghost; v = View(ex, st, K); n, P, pos = g["len"], g["P"], g["pos"]; last = pos - 1; c = If(last == n, NUL, Sel(g["K0"], last)); stuck = Sel(v.E, pk(Sel(P, last), c)) == 0; leaf = Sel(P, n + 1); st.term("q", last); st.term("m", leaf)
        yield "stops inside the key", And(pos != 0, ule(last, n)); yield from path(st, v, last)
        found = And(last == n, Not(stuck), Not(v.none(leaf)))
        yield "a key is found exactly when its whole path is there and carries an item", (z3.BoolVal(r.r is not None) if not isinstance(r, Agg) else None) == found
        if r.r is not None: yield "and its item is returned", And(r.r.name.rstrip("'") == "items", imp(found, And(Sel(v.E, pk(Sel(P, n), NUL)) == leaf, ex.idx_of(st, r) == v.item(leaf), ult(v.item(leaf), v.SN))))
    return Spec(f"w_traverse_{K.tag}", req, ens, loops=loops, title=f"{K.t}::traverse", models=models(K))
def ctor_spec(K):
    def req(ex, st): o = ex.new_struct("trie", 48); st.ghost["o"] = o; return [Ptr(o)]
    def ens(ex, p, st, r):
        rr, _, n = ex.vec(st, st.ghost["o"], 0); it = ex.arr(st, rr, 0, K.w); yield "only the root", n == 1; yield "without an item", Sel(it, bv(0)) == K.empty; yield "no items", ex.vec(st, st.ghost["o"], 24)[2] == 0
        st.ghost.update(E=z3.K(B, bv(0)), PA=z3.Const("PA", A64), CH=z3.Const("CH", A8), IO=z3.Const("IO", A64)); v = View(ex, st, K); yield from wf(v)
    return Spec(f"w_trie_{K.tag}", req, ens, title=f"{K.t}: construction", models=models(K))
# ---- nodes: the map of one node is M(c) (0 = absent), H(c) = present
AM, AH = (z3.ArraySort(z3.BitVecSort(8), z3.BitVecSort(w)) for w in (64, 8))
def node(ex, st, K):
    o = ex.new_struct("node", 56); st.mem[(o.id, 0)] = z3.BitVec("item_index", K.w); st.ghost.update(o=o, H=z3.Const("H", AH), M=z3.Const("M", AM)); return o
class CH8: kind = "int"; width = 8; size = 1
def chr_arg(ex, st, p): return ex.load(st, p, CH8, "key")
def own(st, p):
    if p.r is not st.ghost["o"] or p.o.const() != 8: raise Unsupported("another map")
def m_find(K):
    def f(ex, st, ins, args):
        own(st, args[0]); c = chr_arg(ex, st, args[1]); e = ex.new_struct("map_node", 48); off = 40 if K.w == 64 else 36; st.mem[(e.id, off)] = z3.Extract(K.w - 1, 0, Sel(st.ghost["M"], c)); st.mem[(e.id, 32)] = c; st.ghost["found"] = (e, Sel(st.ghost["H"], c) != 0); return Ptr(e)
    f.label = "std::map::find (trusted library contract)"; return f
def m_end(ex, st, ins, args): own(st, args[0]); return Ptr(st.ghost["o"], Lin(16))
def m_itereq(ex, st, ins, args):
    a, b = (ex.cell(st, x.r, x.o.const() or 0, ptr=True) for x in args[:2]); e, h = st.ghost["found"]
    if {a.r.id, b.r.id} != {e.id, st.ghost["o"].id}: raise Unsupported("iterators of another map")
    return Not(h)
def m_arrow(ex, st, ins, args):
    a = ex.cell(st, args[0].r, args[0].o.const() or 0, ptr=True); e, h = st.ghost["found"]
    if a.r is not e: raise Unsupported("dereferencing end()")
    ex.safety(st, "iterator dereferenced only when found", h); return Ptr(e, Lin(32))
def m_try(K):
    def f(ex, st, ins, args):
        own(st, args[0]); c = chr_arg(ex, st, args[1]); 
        class T: kind = "int"; width = K.w; size = K.w // 8
        t = ex.load(st, args[2], T, "mapped value"); g = st.ghost; new = Sel(g["H"], c) == 0; M = If(new, Sto(g["M"], c, sx(t)), g["M"]); setg(ex, st, M=M, H=Sto(g["H"], c, bv(1, 8))); return Agg([Ptr(ex.new_struct("it", 48)), If(new, bv(1, 8), bv(0, 8))])
    f.label = "std::map::try_emplace (trusted library contract)"; return f
def m_map(ex, st, ins, args): own(st, args[0]); setg(ex, st, H=z3.K(z3.BitVecSort(8), bv(0, 8))); return None
m_end.label = "std::map::end (trusted library contract)"; m_itereq.label = m_arrow.label = "std::map iterator (trusted library contract)"; m_map.label = "std::map() is empty (trusted library contract)"
def mmodels(K): return [(re.compile(r"std::map<.*>::find\("), m_find(K)), (re.compile(r"std::map<.*>::end\("), m_end), (re.compile(r"operator==\(std::_Rb_tree_const_iterator"), m_itereq), (re.compile(r"_Rb_tree_const_iterator<.*>::operator->"), m_arrow), (re.compile(r"std::map<.*>::try_emplace<"), m_try(K)), (re.compile(r"std::map<.*>::map\(\)"), m_map)]
def node_specs(K):
    def full(f):
        def req(ex, st): o = node(ex, st, K); c = z3.BitVec("c", 8); t = z3.BitVec("t", K.w); st.ghost.update(c=c, t=t); return {"node": [Ptr(o)], "terminal": [Ptr(o)], "target": [Ptr(o), c], "add": [Ptr(o), c, t]}[f]
        def ens(ex, p, st, r):
            a, b = p.ghost, st.ghost; c, t = b["c"], b["t"]; it0, it = ex.cell(p, a["o"], 0) if f != "node" else None, ex.cell(st, b["o"], 0); low = lambda x: z3.Extract(K.w - 1, 0, x)
            if f == "node": yield "no item, no edges", And(it == K.empty, b["H"] == z3.K(z3.BitVecSort(8), bv(0, 8)))
            if f == "terminal": yield "terminal exactly when there is an item", r == (it != K.empty)
            if f == "target": yield "the child along c, or the root if there is none", r == If(Sel(b["H"], c) != 0, low(Sel(b["M"], c)), bv(0, K.w)); yield "nothing changes", And(b["M"] == a["M"], b["H"] == a["H"], it == it0)
            if f == "add": yield "true exactly when there was no edge", r == (Sel(a["H"], c) == 0); yield "the edge is there, an old one stays", And(Sel(b["H"], c) != 0, low(Sel(b["M"], c)) == If(Sel(a["H"], c) != 0, low(Sel(a["M"], c)), t)); x = z3.BitVec("x", 8); yield "other edges stay", imp(x != c, And(Sel(b["H"], x) == Sel(a["H"], x), Sel(b["M"], x) == Sel(a["M"], x))); yield "the item stays", it == it0
        return Spec(f"w_{f}_{K.tag}", req, ens, title=f"_Node<{K.t}>: {'construction' if f == 'node' else f}")
    return [full(f) for f in ("node", "terminal", "target", "add")]
def lemmas():
    class V: pass
    v = V(); v.K = Z; v.N, v.SN = z3.BitVecs("N SN", 64); v.E, v.PA, v.CH, v.IO = z3.Const("E", A64), z3.Const("PA", A64), z3.Const("CH", A8), z3.Const("IO", A64); k, j = z3.BitVecs("k j", 64)
    def edge(k): m = Sel(v.E, k); return imp(m != 0, And(ult(ks(k), m), ult(m, v.N), Sel(v.PA, m) == ks(k), Sel(v.CH, m) == kc(k)))
    return [("no two edges lead to the same node: one labelled path per node (induction over the index)", [edge(k), edge(j), Sel(v.E, k) == Sel(v.E, j), Sel(v.E, k) != 0], k == j)]
def units():
    K = KEEP_VEC + [r"emplace_back<"]
    out = []
    for T in (Z, I):
        lib = VecLib(name=lambda p: {0: "nodes", 24: "items"}.get(p.o.const()), kinds=lambda p: {0: "m", 24: "i"}.get(p.o.const()), sizes={f"sim_ds::graph_util::_Node<sim_ds::graph_util::{T.t}>": (56, [(0, T.w)])})
        out.append(dict(tu="trie.cpp", keep=K + [r"_Node<.*>::(add|target)\("], specs=[ctor_spec(T), insert_spec(T), traverse_spec(T)], models=models(T) + lib.models() + THROW))
        out.append(dict(tu="trie.cpp", keep=[r"std::map<", r"_Rb_tree"], specs=node_specs(T), models=mmodels(T)))
    return out
