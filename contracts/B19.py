"""Factor oracle.  Ghost state of the builder: T(s,c) = the stored transition of state s by byte c (0 = none), OW = owner of a table slot, BO = owner of a base.
D(s,c) = s+1 if text[s] == c, else T(s,c).  lrs is the suffix link: D(s,c)=q implies D(lrs[s],c) in {q, lrs[q]}, from which every factor is accepted (lemmas)."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of, Agg, Lin
REPLAY = "B19.cpp"
LEVEL = "proof"
NOTE = "Construction (free list, base search with its termination, transition insertion with relocation, suffix-link loop) is proved to yield tables for which every factor of the text is accepted, for every text; acceptance is proved to reject anything longer than the text and to read only inside its tables, for every query."
ASSUMPTIONS = ["texts shorter than 2^30 bytes; transition table below 2^31 slots (32-bit state ids)", "std::vector is its contract; BitVector is the bit sequence proved under B01"]
And, Or, Not, If, Sel, Sto = z3.And, z3.Or, z3.Not, z3.If, z3.Select, z3.Store
B = z3.BitVecSort(64); E32 = bv(0xffffffff, 32); TL, NL = bv(1 << 30), bv(1 << 31); one = bv(1, 8)
A8, A32, A64 = (z3.ArraySort(B, z3.BitVecSort(w)) for w in (8, 32, 64))
def pk(s, c): return z3.Concat(z3.Extract(55, 0, s), c)
def ks(k): return z3.LShR(k, 8)
def kc(k): return z3.Extract(7, 0, k)
def lo(q): return z3.Extract(7, 0, q)
class W8: kind = "int"; width = 8; size = 1
CHK, BASE, NEXT, FRONT, US, UT, PREV = 0, 24, 48, 72, 80, 112, 144
class View:
    def __init__(self, ex, st, o=None):
        o = o or st.ghost["o"]; g = st.ghost
        _, self.CK, self.n = ex.vec(st, o, CHK); _, self.BS, self.bn = ex.vec(st, o, BASE); _, self.NX, self.N = ex.vec(st, o, NEXT)
        if o.size == 168: _, self.PV, self.pn = ex.vec(st, o, PREV); _, self.US, self.sn = ex.vec(st, o, US); _, self.UT, self.tn = ex.vec(st, o, UT); self.F = ex.cell(st, o, FRONT)
        self.T, self.OW, self.BO = g["T"], g["OW"], g["BO"]
    def chk(self, q): return If(q == 0, bv(0, 8), Sel(self.CK, q - 1))
    def bs(self, s): return zx(Sel(self.BS, s))
    def nx(self, t): return zx(Sel(self.NX, t))
    def pv(self, t): return zx(Sel(self.PV, t))
    def ut(self, t): return Sel(self.UT, t) != 0
    def us(self, t): return Sel(self.US, t) != 0
    def listed(self, t): return And(ult(t, self.N), Not(self.ut(t)), Sel(self.NX, t) != E32)
def D(v, k):
    s, c = ks(k), kc(k); return If(And(ult(s, v.n), Sel(v.CK, s) == c), s + 1, Sel(v.T, k))
def sizes(v, N0=False):
    return And(v.N & 255 == 0, ult(v.N, NL), v.pn == v.N, v.sn == v.N, v.tn == v.N, v.bn == v.n + 1, ult(v.n, TL))
def fl_front(v): return Or(v.listed(v.F), And(v.F == 0, Or(v.N == 0, v.ut(bv(0)))))
def fl_next(v, t): return imp(v.listed(t), And(v.listed(v.F), v.listed(v.nx(t)), v.pv(v.nx(t)) == t))
def fl_prev(v, t): return imp(v.listed(t), And(v.listed(v.pv(t)), v.nx(v.pv(t)) == t))
def fl_order(v, t): return imp(v.listed(t), And(Or(ult(t, v.nx(t)), v.nx(t) == v.F), ule(v.F, t)))
def fl_succ(v, t, u): return imp(And(v.listed(t), v.listed(u), ult(t, u)), And(ule(v.nx(t), u), v.nx(t) != v.F))
def flist(v):
    """definition of the well-formed free list"""
    yield "front of the free list", fl_front(v)
    ex = lambda t: [("t", v.nx(t)), ("t", v.pv(t))]
    yield "the next of a free slot is free", Forall(lambda t: (fl_next(v, t), ex(t)), "t", name="t")
    yield "the one before a free slot is free", Forall(lambda t: (fl_prev(v, t), ex(t)), "t", name="t")
    yield "free slots are in order", Forall(lambda t: (fl_order(v, t), ex(t)), "t", name="t")
    yield "the next free slot is the next larger one", Forall(lambda t, u: fl_succ(v, t, u), ["t", "t"], name="t")
FL = z3.Function("free_list", A32, A32, A8, B, B, z3.BoolSort())      # opaque name of the definition above
def fl(v): return FL(v.NX, v.PV, v.UT, v.F, v.N)
def flp(v): yield "the free list is well-formed", fl(v)
def unfold(v, *ts): return imp(fl(v), And(fl_front(v), *[f(v, t) for t in ts for f in (fl_next, fl_prev, fl_order)]))
def slot(v, k, mv=None):
    """table slot of transition k; mv = (state, old base, chars not yet moved) while relocating"""
    b = v.bs(ks(k))
    if mv: b = If(And(ks(k) == mv[0], mv[2](kc(k))), mv[1], b)
    return b ^ zx(kc(k))
def trans(v, mv=None):
    yield "slot 0 is never a transition", imp(v.N != 0, And(v.ut(bv(0)), Sel(v.NX, bv(0)) == 0))
    def used(t):
        q = v.nx(t); s = Sel(v.OW, t); c = v.chk(q); return (imp(And(ult(t, v.N), v.ut(t)), And(ule(q, v.n), imp(q != 0, And(ult(s, q), Sel(v.BS, s) != E32, Sel(v.T, pk(s, c)) == q, slot(v, pk(s, c), mv) == t)))), [("s", s), ("k", pk(s, c)), ("c", zx(c))])
    yield "used slots hold a transition of their owner", Forall(used, "t", name="t")
    def stored(k):
        q = Sel(v.T, k); t = slot(v, k, mv); return (imp(q != 0, And(ult(ks(k), q), ule(q, v.n), v.chk(q) == kc(k), Sel(v.BS, ks(k)) != E32, ult(t, v.N), v.ut(t), v.nx(t) == q, Sel(v.OW, t) == ks(k))), [("s", ks(k)), ("t", t), ("c", zx(kc(k)))])
    yield "every transition is in its slot", Forall(stored, "k", name="k")
    yield "bases are inside the table and not shared", Forall(lambda s: (imp(And(ule(s, v.n), Sel(v.BS, s) != E32), And(ult(v.bs(s), v.N), Sel(v.BO, v.bs(s)) == s, v.us(v.bs(s)))), [("t", v.bs(s))]), "s", name="s")
def INV(v, full=True, opaque=True):
    yield "table sizes", sizes(v)
    yield from (flp(v) if opaque else flist(v))
    if full: yield from trans(v)
def mine(p): return not hasattr(p, "r") or p.r.size in (168, 72)
def names(p):
    if not mine(p): return "lrs"
    return {CHK: "chk", BASE: "base", NEXT: "next", US: "us", UT: "ut", PREV: "prev"}.get(p.o.const() if hasattr(p, "o") else p)
def kinds(p):
    if not mine(p): return ("s",)
    return {CHK: (), BASE: ("s",), NEXT: ("t",), US: ("t",), UT: ("t",), PREV: ("t",)}.get(p.o.const() if hasattr(p, "o") else p, ())
def builder(ex, st):
    o = ex.new_struct("fb", 168); n, N = z3.BitVecs("n N", 64); g = st.ghost
    for off, w, l in ((CHK, 1, n), (BASE, 4, n + 1), (NEXT, 4, N), (PREV, 4, N), (US, 1, N), (UT, 1, N)): ex.make_vec(st, o, off, names(off), w, l, 8 * w, kinds=kinds(off))
    st.mem[(o.id, FRONT)] = z3.BitVec("front", 64); g.update(o=o, T=z3.Const("T0", A64), OW=z3.Const("OW0", A64), BO=z3.Const("BO0", A64)); return o
def setg(ex, st, **k):
    for n, v in k.items(): st.ghost[n] = v; ex.wrote(("ghost", n))
def havoc(ex, st, what):
    """new contents for the arrays a callee may change (same storage)"""
    o = st.ghost["o"]
    for off in what:
        if off == FRONT: st.mem[(o.id, FRONT)] = fresh("front"); ex.wrote((o.id, FRONT)); continue
        r, a, _ = ex.vec(st, o, off); ex.set_arr(st, r, fresh_arr(names(off), a.sort().range().size()))
def regrow(ex, st, what, N):
    """new storage of size N"""
    o = st.ghost["o"]
    for off in what:
        old, a, _ = ex.vec(st, o, off); w = a.sort().range().size(); r = Region(names(off), "array", stride=w // 8, size=N, kinds=kinds(off)); st.mem[(r.id, 0, w)] = fresh_arr(names(off), w); st.dead.add(old.id); ex.bind_vec(st, o, off, r, N)
        for k in range(3): ex.wrote((o.id, off + 8 * k))
LIB = VecLib(name=names, kinds=kinds)
# ---- BitVector (proved under B01)
def b_at(ex, st, ins, args):
    if args[0].o.const() == US: st.ghost["cand"] = z3.simplify(args[1])      # the candidate base last looked up
    st.term("t", z3.simplify(args[1])); return Agg([Ptr(st.vecs[(args[0].r.id, args[0].o.const())], lin_of(z3.simplify(args[1]))), bv(1)])
def br_set(ex, st, ins, args):
    p = ex.cell(st, args[0].r, args[0].o.const(), ptr=True); x = args[1]; x = If(x, bv(1, 8), bv(0, 8)) if z3.is_bool(x) else zx(x, 8); i = ex.idx_of(st, p); ex.store(st, p, z3.simplify(x), W8, "bit")
    if p.r.name == "us" and "state" in st.ghost: setg(ex, st, BO=If(x != 0, Sto(st.ghost["BO"], i, st.ghost["state"]), st.ghost["BO"]))
    return args[0]
def br_get(ex, st, ins, args): return ex.load(st, ex.cell(st, args[0].r, args[0].o.const(), ptr=True), W8, "bit") != 0
def b_resize(ex, st, ins, args):
    p, n = args[0], args[1]; k = (p.r.id, p.o.const()); old = st.vecs.get(k); ex.safety(st, "BitVector::resize grows", ule(old.size, n)); a = ex.arr(st, old); regrow(ex, st, (p.o.const(),), n); b = ex.arr(st, st.vecs[k])
    st.assume(Forall(lambda t: imp(ult(t, n), Sel(b, t) == If(ult(t, old.size), Sel(a, t), bv(0, 8))), "t", name="t")); return None
def b_new(ex, st, ins, args):
    p = args[0]; r = Region(names(p), "array", stride=1, size=bv(0), kinds=kinds(p)); st.mem[(r.id, 0, 8)] = z3.K(B, bv(0, 8)); ex.bind_vec(st, p.r, p.o.const(), r, bv(0)); return None
for f, l in ((b_at, "operator[]"), (br_set, "element = bool"), (br_get, "element -> bool"), (b_resize, "resize: new bits are zero"), (b_new, "BitVector()")): f.label = f"BitVector {l} (proved under B01)"
BITS = [(re.compile(r"BitVector::operator\[\]"), b_at), (re.compile(r"BitReference<.*>::operator=\(bool"), br_set), (re.compile(r"Bit(Const)?Reference<.*>::operator bool"), br_get), (re.compile(r"BitVector::resize\("), b_resize), (re.compile(r"BitVector::BitVector\(\)"), b_new), (re.compile(r"aligned_allocator<.*>>::~vector"), m_nop)]
FB = r"FactorOracleBaseCTAFOBuilder<unsigned int>::"
def own(ex, st, p):
    if p.r is not st.ghost["o"] or p.o.const() != 0: raise Unsupported("another builder")
# ---- set_next: take an unused slot
def set_next_post(o, v, i, x, opaque=True):
    """o: view before, v: view after"""
    yield "slot is used and holds the value", And(v.ut(i), zx(Sel(v.NX, i)) == x)
    yield "other slots keep their use", Forall(lambda t: imp(And(ult(t, o.N), t != i), And(Sel(v.UT, t) == Sel(o.UT, t), imp(o.ut(t), Sel(v.NX, t) == Sel(o.NX, t)), imp(Not(o.ut(t)), (Sel(v.NX, t) == E32) == (Sel(o.NX, t) == E32)))), "t", name="t")
    yield "table keeps its size", And(v.N == o.N, sizes(v))
    if opaque: yield "the free list is well-formed", imp(Or(o.ut(bv(0)), i == 0), fl(v)); return
    for l, f in flist(v):
        yield l, (imp(Or(o.ut(bv(0)), i == 0), f) if l.startswith("front") else f)
def m_set_next(ex, st, ins, args):
    p, i, x = args[0], args[1], args[2]; own(ex, st, p); o = View(ex, st); st.term("t", i)
    ex.safety(st, "set_next: slot inside the table and not used", And(ult(i, o.N), Not(o.ut(i)))); ex.safety(st, "set_next: value is a state", ule(zx(x), o.n)); ex.safety(st, "set_next: the free list is well-formed", fl(o))
    havoc(ex, st, (NEXT, PREV, UT, FRONT)); v = View(ex, st)
    for l, f in set_next_post(o, v, i, zx(x)): st.assume(f)
    if "state" in st.ghost: setg(ex, st, OW=Sto(o.OW, i, st.ghost["state"]))
    return None
m_set_next.label = "set_next (contract above)"
def sn_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); i = z3.BitVec("index", 64); x = z3.BitVec("x", 32); st.ghost.update(i=i, x=x); st.assume(*[f for _, f in INV(v, False, False)], ult(i, v.N), Not(v.ut(i)), ule(zx(x), v.n))
        for t in (i, v.pv(i), v.nx(i), v.F, bv(0)): st.term("t", t)
        return [Ptr(o), i, x]
    def ens(ex, p, st, r):
        o, v = View(ex, p), View(ex, st); yield from set_next_post(o, v, st.ghost["i"], zx(st.ghost["x"]), False)
    return Spec("re:" + FB + r"set_next\(", req, ens, title="FactorOracle builder: set_next")
# ---- _expand_block: 256 more unused slots
def expand_post(o, v):
    yield "256 more slots", And(v.N == o.N + 256)
    yield "old slots keep their use", Forall(lambda t: imp(ult(t, o.N), And(Sel(v.UT, t) == Sel(o.UT, t), Sel(v.US, t) == Sel(o.US, t), imp(o.ut(t), Sel(v.NX, t) == Sel(o.NX, t)), imp(Not(o.ut(t)), (Sel(v.NX, t) == E32) == (Sel(o.NX, t) == E32)))), "t", name="t")
    yield "new slots are free", Forall(lambda t: imp(And(ule(o.N, t), ult(t, v.N)), And(Not(v.ut(t)), Not(v.us(t)), Sel(v.NX, t) != E32)), "t", name="t")
    yield "front", v.F == If(o.listed(o.F), o.F, o.N)
    yield "new slots follow the old ones", imp(o.listed(o.F), v.nx(o.pv(o.F)) == o.N)
def m_expand(ex, st, ins, args):
    own(ex, st, args[0]); o = View(ex, st); st.assume(ult(o.N, NL - 256)); ex.safety(st, "_expand_block: the free list is well-formed", fl(o)); st.term("t", o.F); st.term("t", o.pv(o.F)); N = z3.simplify(o.N + 256); regrow(ex, st, (NEXT, PREV, US, UT), N); havoc(ex, st, (FRONT,)); v = View(ex, st)
    st.assume(*[f for _, f in INV(v, False)]); st.assume(*[f for _, f in expand_post(o, v)]); st.term("t", o.N); st.assume(unfold(o, o.F), unfold(v, v.F, o.N)); return None
m_expand.label = "_expand_block (contract above; the table is assumed to stay below 2^31 slots)"
def m_expand0(ex, st, ins, args):
    own(ex, st, args[0]); o = View(ex, st); N = args[1]
    for off in (NEXT, PREV, US, UT):
        _, a, l = ex.vec(st, o_ := st.ghost["o"], off); ex.safety(st, "_resize grows", ule(l, N)); regrow(ex, st, (off,), N); b = ex.vec(st, o_, off)[1]
        st.assume(Forall(lambda t, a=a, b=b, l=l: imp(ult(t, N), Sel(b, t) == If(ult(t, l), Sel(a, t), bv(0, a.sort().range().size()))), "t", name="t"))
    return None
m_expand0.label = "_resize (contract above)"
def rs_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); n = z3.BitVec("new_size", 64); st.ghost["sz"] = n; st.assume(*[f for _, f in INV(v, False)], ule(v.N, n), ult(n, NL)); return [Ptr(o), n]
    def ens(ex, p, st, r):
        n = st.ghost["sz"]; o_ = st.ghost["o"]
        for off in (NEXT, PREV, US, UT):
            _, a, l = ex.vec(p, o_, off); _, b, m = ex.vec(st, o_, off); yield f"{names(off)}: size", m == n; yield f"{names(off)}: elements kept, new ones zero", Forall(lambda t, a=a, b=b, l=l: imp(ult(t, n), Sel(b, t) == If(ult(t, l), Sel(a, t), bv(0, a.sort().range().size()))), "t", name="t")
    return Spec("re:" + FB + r"_resize\(", req, ens, title="FactorOracle builder: _resize")
def ex_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); st.assume(*[f for _, f in INV(v, False, False)], ult(v.N, NL - 256)); g = st.ghost; g["v0"] = v
        for t in (v.F, v.pv(v.F), bv(0), v.N, v.N + 1, v.N + 254, v.N + 255): st.term("t", z3.simplify(t))
        return [Ptr(o)]
    def loops(ex, blk, n):
        def inv(L):
            o, v = L.st.ghost["v0"], View(ex, L.st); i = L.int(); L.st.term("t", i); L.st.term("t", i - 1)
            yield "counter", And(ult(o.N, i), ult(i, v.N), v.N == o.N + 256)
            h = View(ex, L.e.st) if hasattr(L, "e") else v
            yield "linked so far", Forall(lambda t: imp(And(ult(o.N, t), ult(t, i)), And(v.nx(t) == t + 1, v.pv(t) == t - 1)), "t", name="t")
            yield "other slots untouched", Forall(lambda t: imp(Or(ule(t, o.N), ule(i, t)), And(Sel(v.NX, t) == Sel(h.NX, t), Sel(v.PV, t) == Sel(h.PV, t))), "t", name="t")
        return Loop("link the new slots", inv, lambda L: View(ex, L.st).N - L.int())
    def ens(ex, p, st, r): o, v = View(ex, p), View(ex, st); yield from expand_post(o, v); yield from INV(v, False, False)
    return Spec("re:" + FB + r"_expand_block\(", req, ens, loops=loops, title="FactorOracle builder: _expand_block", models=[(re.compile(FB + r"_resize\("), m_expand0)])
# ---- transition
def tr_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); s, q = z3.BitVecs("s q", 32); st.assume(*[f for _, f in INV(v)], ult(zx(s), v.n), ule(1, zx(q)), ule(zx(q), v.n)); c = v.chk(zx(q)); st.ghost["k"] = k = pk(zx(s), c); st.term("s", zx(s)); st.term("k", k); st.term("t", slot(v, k)); return [Ptr(o), s, q]
    def ens(ex, p, st, r): v = View(ex, st); yield "the transition of the state by this byte", zx(r) == D(v, st.ghost["k"])
    return Spec("re:" + FB + r"transition\(", req, ens, title="FactorOracle builder: transition")
# ---- _find_base
def find_post(o, v, b, free):
    """free(k): slot needed by the k-th transition; nf: number of transitions"""
    yield "the table only grows", And(ule(o.N, v.N), sizes(v))
    yield "base is inside the table and new", And(ult(b, v.N), Not(v.us(b)))
    yield from [free]
    yield "old slots keep their use", Forall(lambda t: imp(ult(t, o.N), And(Sel(v.UT, t) == Sel(o.UT, t), Sel(v.US, t) == Sel(o.US, t), imp(o.ut(t), Sel(v.NX, t) == Sel(o.NX, t)))), "t", name="t")
    yield "new slots are free", Forall(lambda t: imp(And(ule(o.N, t), ult(t, v.N)), And(Not(v.ut(t)), Not(v.us(t)))), "t", name="t")
    yield from flp(v)
def transes_of(ex, st, p):
    r = st.vecs[(p.r.id, p.o.const())]; return r, ex.arr(st, r), r.size
def need(v, tr, m, b): return "every slot the transitions need is unused", Forall(lambda j: (imp(ult(j, m), Not(v.ut(b ^ zx(v.chk(zx(Sel(tr, j))))))), [("t", b ^ zx(v.chk(zx(Sel(tr, j)))))]), "j", name="j")
def states_in(v, tr, m): return Forall(lambda j: imp(ult(j, m), And(ule(1, zx(Sel(tr, j))), ule(zx(Sel(tr, j)), v.n))), "j", name="j")
def m_find(ex, st, ins, args):
    own(ex, st, args[0]); o = View(ex, st); r, tr, m = transes_of(ex, st, args[1]); st.term("j", bv(0)); ex.safety(st, "_find_base: at least one transition", m != 0); ex.oblige(st, "_find_base: transitions lead to states", states_in(o, tr, m))
    N = fresh("N"); b = fresh("base"); ex.safety(st, "_find_base: the free list is well-formed", fl(o)); st.assume(ule(o.N, N)); regrow(ex, st, (NEXT, PREV, US, UT), N); havoc(ex, st, (FRONT,)); v = View(ex, st)
    for _, f in find_post(o, v, b, need(v, tr, m, b)): st.assume(f)
    st.term("t", b); return b
m_find.label = "_find_base (contract above)"
def fb_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); g = st.ghost; t = ex.new_struct("tr", 24); m = z3.BitVec("m", 64); st.assume(ule(1, m), ult(m, TL)); ex.make_vec(st, t, 0, "transes", 4, m, 32, kinds=("j",)); g["v0"] = v; g["tp"] = Ptr(t)
        st.assume(*[f for _, f in INV(v, False)], states_in(v, ex.arr(st, ex.vec(st, t, 0)[0]), m), imp(v.N == 0, False)); st.term("j", bv(0)); st.term("t", v.F); st.term("t", v.N); st.assume(unfold(v, v.F)); return [Ptr(o), Ptr(t)]
    def loops(ex, blk, n):
        inner = n == 1
        def same(o, v):
            yield "old slots keep their use", Forall(lambda t: imp(ult(t, o.N), And(Sel(v.UT, t) == Sel(o.UT, t), Sel(v.US, t) == Sel(o.US, t), imp(o.ut(t), Sel(v.NX, t) == Sel(o.NX, t)))), "t", name="t")
            yield "new slots are free", Forall(lambda t: imp(And(ule(o.N, t), ult(t, v.N)), And(Not(v.ut(t)), Not(v.us(t)))), "t", name="t")
        def inv(L):
            st = L.st; g = st.ghost; o, v = g["v0"], View(ex, st); i = L.v("index"); st.term("t", i); r, tr, m = transes_of(ex, st, g["tp"]); N1 = View(ex, L.e.st).N if hasattr(L, "e") else v.N; b = i ^ zx(v.chk(zx(Sel(tr, bv(0))))); st.term("t", b)
            st.assume(unfold(v, i, v.F, v.nx(i)))
            yield "index is a free slot", And(v.listed(i), ule(o.N, N1), ule(N1, v.N))
            yield "no growth, or a fresh block", Or(v.N == N1, And(v.N == N1 + 256, i == N1, N1 & 255 == 0))
            yield "slots beyond the start are unused", Forall(lambda t: imp(And(ule(N1, t), ult(t, v.N)), And(Not(v.ut(t)), Not(v.us(t)))), "t", name="t")
            yield from INV(v, False); yield from same(o, v)
        def dec(L):
            v = View(ex, L.st); N1 = View(ex, L.e.st).N; return If(v.N == N1, bv(1 << 40) - L.v("index"), bv(0))
        def inv2(L):
            st = L.st; v = View(ex, st); i = L.ix("transes"); r, tr, m = transes_of(ex, st, st.ghost["tp"]); h = L.e; b = find_b(L); st.term("j", i); st.term("t", z3.simplify(b ^ zx(v.chk(zx(Sel(tr, i))))))
            yield "no slot in use so far", And(*[x == 0 for x in L.ints(8)]) if L.ints(8) else z3.BoolVal(True)
            yield "position", ule(i, m); yield "slots so far are unused", Forall(lambda j: (imp(ult(j, i), Not(v.ut(b ^ zx(v.chk(zx(Sel(tr, j))))))), [("t", b ^ zx(v.chk(zx(Sel(tr, j)))))]), "j", name="j")
        if inner: return Loop("check the slots", inv2, lambda L: transes_of(ex, L.st, L.st.ghost["tp"])[2] - L.ix("transes"))
        return Loop("search the free list", inv, dec, roles={"index": 64}, setup=lambda L: None)
    def ens(ex, p, st, r):
        o, v = View(ex, p), View(ex, st); q, tr, m = transes_of(ex, st, st.ghost["tp"]); st.term("t", r); yield from find_post(o, v, r, need(v, tr, m, r))
    return Spec("re:" + FB + r"_find_base\(", req, ens, loops=loops, title="FactorOracle builder: _find_base", models=[(re.compile(FB + r"_expand_block\("), m_expand)])
def find_b(L):
    """the candidate base: the only value the search block computed from index"""
    c = L.st.ghost["cand"]; return c
# ---- get_transes
CN = z3.Function("transitions_below", A64, B, B, B)       # number of bytes below c with a transition of state s
def cn_step(T, s, c): return And(CN(T, s, bv(0)) == 0, CN(T, s, c + 1) == CN(T, s, c) + If(Sel(T, pk(s, lo(c))) != 0, bv(1), bv(0)))
def collected(v, s, tr, m, lim, IX):
    """tr lists the transitions of s by bytes below lim; IX(c) = index of the transition by c"""
    yield "each entry is a transition of the state", Forall(lambda j: (imp(ult(j, m), And(zx(Sel(tr, j)) != 0, ule(zx(Sel(tr, j)), v.n), ult(zx(v.chk(zx(Sel(tr, j)))), lim), Sel(v.T, pk(s, v.chk(zx(Sel(tr, j))))) == zx(Sel(tr, j)), IX(zx(v.chk(zx(Sel(tr, j))))) == j)), [("k", pk(s, v.chk(zx(Sel(tr, j)))))]), "j", name="j")
    yield "every transition of the state is an entry", Forall(lambda c: (imp(And(ult(c, lim), Sel(v.T, pk(s, lo(c))) != 0), And(ult(IX(c), m), zx(Sel(tr, IX(c))) == Sel(v.T, pk(s, lo(c))))), [("j", IX(c)), ("k", pk(s, lo(c)))]), "c", name="c")
def gt_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); g = st.ghost; s = z3.BitVec("s", 64); t = ex.new_struct("tr", 24); g.update(s=s, tp=Ptr(t)); st.assume(*[f for _, f in INV(v)], ule(s, v.n)); st.term("s", s); return [Ptr(t), Ptr(o), s]
    def IX(st): g = st.ghost; return lambda c: CN(g["T"], g["s"], c)
    def loops(ex, blk, n):
        def inv(L):
            st = L.st; v = View(ex, st); g = st.ghost; c = L.int(); r, tr, m = transes_of(ex, st, g["tp"]); st.assume(cn_step(v.T, g["s"], c)); st.term("c", c); st.term("j", m); k = pk(g["s"], lo(c)); st.term("k", k); st.term("t", v.bs(g["s"]) ^ c)
            if hasattr(L, "h"): st.assume(cn_step(v.T, g["s"], L.h.int()))
            yield "bytes so far", And(ule(c, 256), Sel(v.BS, g["s"]) != E32, m == CN(v.T, g["s"], c), ule(m, c))
            yield "counts grow", Forall(lambda x: imp(And(ult(x, c), Sel(v.T, pk(g["s"], lo(x))) != 0), ult(CN(v.T, g["s"], x), CN(v.T, g["s"], c))), "c", name="c")
            yield from collected(v, g["s"], tr, m, c, IX(st))
        return Loop("scan the bytes", inv, lambda L: bv(256) - L.int())
    def ens(ex, p, st, r):
        v = View(ex, st); g = st.ghost; q, tr, m = transes_of(ex, st, g["tp"]); yield "at most one per byte", ule(m, 256)
        c0 = z3.BitVec("cc", 64); yield from collected(v, g["s"], tr, m, bv(256), IX(st))
    return Spec("re:" + FB + r"get_transes\(", req, ens, loops=loops, title="FactorOracle builder: get_transes")
def m_get_transes(ex, st, ins, args):
    p, b, s = args; own(ex, st, b); v = View(ex, st); s = z3.simplify(s); ex.safety(st, "get_transes: state exists", ule(s, v.n)); m = fresh("count"); r = Region("transes", "array", stride=4, size=m, kinds=("j",)); st.mem[(r.id, 0, 32)] = tr = fresh_arr("transes", 32); ex.bind_vec(st, p.r, p.o.const(), r, m)
    ix = fresh_arr("index", 64); st.assume(ule(m, 256)); st.ghost["IX"] = ix
    for _, f in collected(v, s, tr, m, bv(256), lambda c: Sel(ix, c)): st.assume(f)
    st.ghost["tp"] = Ptr(p.r, p.o); return None
m_get_transes.label = "get_transes (contract above)"
# ---- _insert_trans
def released(o, v, t):
    """lemma: giving up a used slot leaves the free list alone"""
    return imp(And(fl(o), o.ut(t), t != 0, v.NX == Sto(o.NX, t, E32), v.UT == Sto(o.UT, t, bv(0, 8)), v.PV == o.PV, v.F == o.F, v.N == o.N), fl(v))
def it_spec():
    def req(ex, st):
        o = builder(ex, st); v = View(ex, st); g = st.ghost; s, q = z3.BitVecs("s q", 32); g.update(state=zx(s), q=zx(q), v0=v); st.assume(*[f for _, f in INV(v)], ult(zx(s), zx(q)), ule(zx(q), v.n), v.N != 0, Sel(v.T, pk(zx(s), v.chk(zx(q)))) == 0)
        st.term("s", zx(s)); c = v.chk(zx(q)); g["k"] = pk(zx(s), c); st.term("k", g["k"]); st.term("t", v.bs(zx(s)) ^ zx(c)); st.term("c", zx(c)); st.term("t", bv(0)); return [Ptr(o), s, q]
    def mid(ex, st, L):
        g = st.ghost; v = View(ex, st); r, tr, m1 = transes_of(ex, st, g["tp"]); m = m1 - 1; i = L.int(); ix = g["IX"]; e = View(ex, L.e.st); ob = e0base(g); nb = v.bs(g["state"])
        return g, v, tr, m, i, ix, ob, nb
    def e0base(g): return g["v0"].bs(g["state"])
    def loops(ex, blk, n):
        def inv(L):
            st = L.st; g, v, tr, m, i, ix, ob, nb = mid(ex, st, L); c = lambda j: zx(v.chk(zx(Sel(tr, j)))); st.term("j", i); st.term("j", m)
            for x in (ob ^ c(i), nb ^ c(i), bv(0), nb ^ zx(v.chk(g["q"]))): st.term("t", z3.simplify(x))
            st.term("k", pk(g["state"], v.chk(zx(Sel(tr, i))))); st.term("c", c(i)); g["rel"] = (v, z3.simplify(ob ^ c(i)))
            yield "position", And(ule(i, m), ule(m, 256), g["v0"].N != 0, ule(g["v0"].N, v.N))
            yield "sizes", sizes(v)
            yield "base moved", And(Sel(v.BS, g["state"]) != E32, Not(v.us(ob)), ob != nb)
            yield "list of transitions", And(*[z3.BoolVal(True)])
            yield "slots still needed are unused", Forall(lambda j: (imp(And(ule(i, j), ule(j, m)), And(ult(nb ^ c(j), v.N), Not(v.ut(nb ^ c(j))))), [("t", nb ^ c(j))]), "j", name="j")
            yield from trans(v, (g["state"], ob, lambda b: ule(i, Sel(ix, zx(b)))))
            yield from flp(v)
        return Loop("move the transitions", inv, lambda L: transes_of(ex, L.st, L.st.ghost["tp"])[2] - L.int())
    def ens(ex, p, st, r):
        o, v = View(ex, p), View(ex, st); v.T = Sto(o.T, st.ghost["k"], st.ghost["q"]); yield "the table only grows", ule(o.N, v.N); yield from INV(v)
    def ms(ex, st, ins, args):
        g = st.ghost
        if "rel" in g: h, t = g["rel"]; st.assume(released(h, View(ex, st), t))
        return m_set_next(ex, st, ins, args)
    ms.label = m_set_next.label
    return Spec("re:" + FB + r"_insert_trans\(", req, ens, loops=loops, title="FactorOracle builder: _insert_trans", models=[(re.compile(FB + r"set_next\("), ms), (re.compile(FB + r"_find_base\("), m_find), (re.compile(FB + r"get_transes\("), m_get_transes)])
# ---- _build
IP = z3.Function("builder_invariant", A8, A32, A32, A32, A8, A8, B, B, B, A64, A64, A64, z3.BoolSort())      # opaque name of INV
def ip(v): return IP(v.CK, v.BS, v.NX, v.PV, v.US, v.UT, v.F, v.N, v.n, v.T, v.OW, v.BO)
def m_insert(ex, st, ins, args):
    own(ex, st, args[0]); o = View(ex, st); g = st.ghost; s, q = zx(args[1]), zx(args[2]); ex.safety(st, "_insert_trans: builder invariant", And(ip(o), o.N != 0)); ex.safety(st, "_insert_trans: forward transition between states", And(ult(s, q), ule(q, o.n)))
    k = pk(s, o.chk(q)); st.term("k", k); ex.safety(st, "_insert_trans: no such transition yet", Sel(o.T, k) == 0)
    N = fresh("N"); st.assume(ule(o.N, N), ult(N, NL)); regrow(ex, st, (NEXT, PREV, US, UT), N); havoc(ex, st, (FRONT, BASE)); setg(ex, st, T=Sto(o.T, k, q), OW=fresh_arr("OW", 64), BO=fresh_arr("BO", 64)); v = View(ex, st); st.assume(ip(v)); return None
m_insert.label = "_insert_trans (contract above)"
def m_trans(ex, st, ins, args):
    own(ex, st, args[0]); v = View(ex, st); s, q = zx(args[1]), zx(args[2]); ex.safety(st, "transition: builder invariant", ip(v)); ex.safety(st, "transition: states", And(ult(s, v.n), ule(1, q), ule(q, v.n))); k = pk(s, v.chk(q)); st.term("k", k); st.term("s", s); return z3.Extract(31, 0, D(v, k))
m_trans.label = "transition (contract above)"
def lr(a, s): return zx(Sel(a, s))
def links(v, lrs, lim): return "suffix links point backwards", Forall(lambda s: imp(And(ule(1, s), ule(s, lim)), ult(lr(lrs, s), s)), "s", name="s")
def follow(v, lrs, lim, top, but=None):
    """D(s,c)=q implies D(lrs[s],c) in {q, lrs[q]}"""
    def f(k):
        s, c = ks(k), kc(k); q = D(v, k); k2 = pk(lr(lrs, s), c); r = D(v, k2); h = And(ule(1, s), ult(s, lim), q != 0)
        if but is not None: h = And(h, k != but)
        return (imp(h, And(r != 0, Or(r == q, And(ule(q, top), r == lr(lrs, q))))), [("k", k2), ("s", s), ("s", q)])
    return "a suffix link has every transition of its state", Forall(f, "k", name="k")
def oracle(v, lrs):
    def f(k):
        s, c = ks(k), kc(k); b = Sel(v.BS, s); x = v.nx(slot(v, k)); ok = And(ult(s, x), v.chk(x) == c)
        return (imp(ule(s, v.n), If(b == E32, Sel(v.T, k) == 0, And(ult(slot(v, k), v.N), ule(x, v.n), ok == (Sel(v.T, k) != 0), imp(ok, Sel(v.T, k) == x)))), [("s", s), ("t", slot(v, k))])
    yield "sizes", And(v.bn == v.n + 1, ult(v.n, TL))
    yield "the table holds exactly the transitions", Forall(f, "k", name="k")
    yield "transitions go forward", Forall(lambda k: imp(Sel(v.T, k) != 0, And(ult(ks(k), Sel(v.T, k)), ule(Sel(v.T, k), v.n))), "k", name="k")
    yield links(v, lrs, v.n); yield follow(v, lrs, v.n + 1, v.n)
def lrs_of(ex, st):
    for k, r in st.vecs.items():
        if r.name == "lrs": return ex.arr(st, r), r.size
    return (st.ghost["lrs"], None) if "lrs" in st.ghost else (None, None)
def empty_builder(ex, st, o=None):
    o = o or st.ghost["o"]; v = View(ex, st, o); return And(v.N == 0, v.pn == 0, v.sn == 0, v.tn == 0, v.F == 0, v.bn == v.n + 1, ult(v.n, TL)), Forall(lambda s: imp(ule(s, v.n), Sel(v.BS, s) == E32), "s", name="s")
def build_spec():
    def req(ex, st):
        o = builder(ex, st); st.ghost["T"] = z3.K(B, bv(0)); v = View(ex, st); st.assume(*empty_builder(ex, st)); st.assume(imp(And(v.N == 0, v.F == 0), fl(v))); st.term("t", bv(0)); st.ghost["v0"] = v; return [Ptr(o)]
    def loops(ex, blk, n):
        def inv0(L):
            st = L.st; v = View(ex, st); st.assume(unfold(v, bv(0)))
            yield "sizes", sizes(v); yield from flp(v); yield "front", And(v.F == 0, Or(v.N == 0, v.listed(bv(0))))
            yield "nothing in use", Forall(lambda t: imp(ult(t, v.N), And(Not(v.ut(t)), Not(v.us(t)))), "t", name="t")
        def inv1(L):
            st = L.st; v = View(ex, st); i = L.int(); ls, ln = lrs_of(ex, st); st.term("s", i); st.term("s", bv(0)); st.term("s", i + 1)
            yield "position", And(ule(i, v.n), ln == v.n + 1, v.N != 0); yield "builder invariant", ip(v)
            yield "transitions so far", Forall(lambda k: imp(Sel(v.T, k) != 0, And(ult(ks(k), i), ult(ks(k), Sel(v.T, k)), ule(Sel(v.T, k), i))), "k", name="k")
            yield links(v, ls, i); yield follow(v, ls, i, i)
        def inv3(L):
            st = L.st; g = st.ghost; v = View(ex, st); k = L.int(); ls, ln = lrs_of(ex, st); e = L.e; i = lr(ls, bv(0)) - 1; c = Sel(v.CK, i); st.term("s", k); st.term("s", i)
            if L is L.e: g["p"] = i
            elif hasattr(L, "h"): g["p"] = L.h.int()
            else: g["p"] = fresh("p")
            p = g["p"]; end = k == i + 1; st.term("s", p); st.term("k", pk(k, c)); st.term("k", pk(p, c))
            yield "position", And(ult(i, v.n), ln == v.n + 1, v.N != 0, ule(p, i), Or(end, ult(k, p)), lr(ls, p) == k, D(v, pk(p, c)) == i + 1); yield "builder invariant", ip(v)
            yield "transitions so far", Forall(lambda y: imp(Sel(v.T, y) != 0, And(ult(ks(y), i), ult(ks(y), Sel(v.T, y)), Or(ule(Sel(v.T, y), i), And(Sel(v.T, y) == i + 1, kc(y) == c, Or(end, ult(k, ks(y))))))), "k", name="y")
            yield links(v, ls, i); yield follow(v, ls, i + 1, i, pk(p, c))
        def inv2(L):
            st = L.st; i = L.int(); v = View(ex, st); e = View(ex, L.e.st); st.term("t", i)
            yield "position", ule(i, v.N)
            yield "used slots untouched, passed ones zero", Forall(lambda t: imp(ult(t, v.N), And(imp(v.ut(t), Sel(v.NX, t) == Sel(e.NX, t)), imp(And(Not(v.ut(t)), ult(t, i)), Sel(v.NX, t) == 0))), "t", name="t")
        def set2(L):
            v = View(ex, L.st); L.st.assume(ip(v)) if False else None
            for _, f in trans(v): L.st.assume(Forall(lambda *a, f=f: gate(ip(v), f.fn(*a)), f.kinds, f.name) if isinstance(f, Forall) else imp(ip(v), f))
            L.st.assume(imp(ip(v), sizes(v)))
        if n == 0: return Loop("make room", inv0, lambda L: NL - View(ex, L.st).N)
        if n == 1: return Loop("add letters", inv1, lambda L: View(ex, L.st).n - L.int(), setup=lambda L: fold(L.ex, L.st))
        if n == 2: return Loop("clear unused slots", inv2, lambda L: View(ex, L.st).N - L.int(), setup=set2)
        def dec3(L): k = L.int(); ls, _ = lrs_of(ex, L.st); return If(k == lr(ls, bv(0)), bv(0), k + 1)
        return Loop("follow suffix links", inv3, dec3)
    def fold(ex, st):
        v = View(ex, st)
        for l, f in INV(v): ex.oblige(st, "builder invariant established: " + l, f)
        st.assume(ip(v))
    def dt(ex, st, ins, args):
        r = st.vecs.get((args[0].r.id, args[0].o.const()))
        if r is not None and r.name == "lrs": st.ghost["lrs"] = ex.arr(st, r)
        return LIB.dtor(ex, st, ins, args)
    dt.label = "std::vector::destructor (trusted library contract)"
    def ens(ex, p, st, r): yield from oracle(View(ex, st), st.ghost["lrs"])
    return Spec("re:" + FB + r"_build\(", req, ens, loops=loops, title="FactorOracle builder: _build", models=[(re.compile(FB + r"set_next\("), m_set_next), (re.compile(FB + r"_insert_trans\("), m_insert), (re.compile(FB + r"transition\("), m_trans), (re.compile(FB + r"_expand_block\("), m_expand), (re.compile(VEC + r"~vector\("), dt)])
def gate(h, r): return (imp(h, r[0]), r[1]) if isinstance(r, tuple) else imp(h, r)
# ---- constructors
def m_copytext(ex, st, ins, args):
    """vector<uint8_t>(first, last): copies the range"""
    p, b, e = args[:3]; n = z3.simplify(ex.idx_of(st, e) - ex.idx_of(st, b)); ex.safety(st, "range of the text", And(ule(ex.idx_of(st, b), ex.idx_of(st, e)), ule(ex.idx_of(st, e), b.r.size))); a = ex.arr(st, b.r, 0, 8)
    r = Region("chk", "array", stride=1, size=n); st.mem[(r.id, 0, 8)] = c = fresh_arr("chk", 8); i0 = ex.idx_of(st, b); st.assume(Forall(lambda j: imp(ult(j, n), Sel(c, j) == Sel(a, i0 + j)), "j", name="j")); ex.bind_vec(st, p.r, p.o.const(), r, n); return None
m_copytext.label = "std::vector(first, last) copies the range (trusted library contract)"
def m_build(ex, st, ins, args):
    p = args[0]; o = p.r; g = st.ghost; g.update(T=z3.K(B, bv(0)), OW=fresh_arr("OW", 64), BO=fresh_arr("BO", 64), o=o)
    a, b = empty_builder(ex, st, o); ex.safety(st, "_build: fresh tables of the right size", a); ex.oblige(st, "_build: no base yet", b)
    N = fresh("N"); st.assume(ult(N, NL)); regrow(ex, st, (NEXT, PREV, US, UT), N); havoc(ex, st, (FRONT, BASE)); setg(ex, st, T=fresh_arr("T", 64)); g["lrs"] = fresh_arr("lrs", 32)
    for _, f in oracle(View(ex, st, o), g["lrs"]): st.assume(f)
    return None
m_build.label = "_build (contract above)"
def ctor_spec(fn, size, title, ptr_len):
    def req(ex, st):
        o = ex.new_struct("fo", size); n = z3.BitVec("n", 64); st.assume(ult(n, TL)); t = ex.new_array(st, "text", 1, n, 8); st.ghost.update(o=o, text=t, T=z3.K(B, bv(0)), OW=z3.Const("OW0", A64), BO=z3.Const("BO0", A64)); a = Ptr(t); return [Ptr(o)] + ([n, a] if ptr_len else [a, Ptr(t, lin_of(n))])
    def ens(ex, p, st, r):
        o = args_o = ORIG(ex, p); v = View(ex, st, o); t = p.ghost["text"]; a = ex.arr(p, t, 0, 8); yield "the text is stored", v.n == t.size; yield "byte by byte", Forall(lambda j: imp(ult(j, t.size), Sel(v.CK, j) == Sel(a, j)), "j", name="j")
        yield from oracle(v, st.ghost["lrs"])
    return Spec(fn, req, ens, title=title, models=[(re.compile(r"^std::vector<unsigned char, .*>::vector<char const\*, void>\("), m_copytext), (re.compile(FB + r"_build\("), m_build)])
def ORIG(ex, p): return p.ghost["o"]
# ---- queries
def orc(ex, st):
    o = ex.new_struct("fo", 72); n, N = z3.BitVecs("n N", 64); g = st.ghost
    for off, w, l in ((CHK, 1, n), (BASE, 4, n + 1), (NEXT, 4, N)): ex.make_vec(st, o, off, names(off), w, l, 8 * w, kinds=kinds(off))
    g.update(o=o, T=z3.Const("T0", A64), OW=z3.Const("OW0", A64), BO=z3.Const("BO0", A64), lrs=z3.Const("lrs", A32)); v = View(ex, st); st.assume(*[f for _, f in oracle(v, g["lrs"])]); g["v"] = v; return o
def image_spec():
    def req(ex, st):
        o = orc(ex, st); s = z3.BitVec("s", 64); c = z3.BitVec("c", 8); r = ex.new_array(st, "state", 8, bv(1), 64); ex.set_arr(st, r, Sto(ex.arr(st, r, 0, 64), bv(0), s), 0, 64); v = View(ex, st); st.assume(ule(s, v.n)); st.ghost.update(r=r, s=s, k=pk(s, c)); st.term("k", pk(s, c)); return [Ptr(o), Ptr(r), c]
    def ens(ex, p, st, r):
        g = st.ghost; v = View(ex, st); s2 = Sel(ex.arr(st, g["r"], 0, 64), bv(0)); d = D(v, g["k"]); yield "succeeds exactly when there is a transition", r == (d != 0); yield "moves along it, or stays", s2 == If(r, d, g["s"]); yield "moves forward inside the text", imp(r, And(ult(g["s"], s2), ule(s2, v.n)))
    return Spec("w_image", req, ens, title="FactorOracle::image")
INC = z3.Function("on_suffix_chain", B, B, z3.BoolSort())     # on_suffix_chain(i,x): x == i, or i >= 1 and on_suffix_chain(lrs[i], x)
def inc_def(lrs, i, x): return INC(i, x) == Or(x == i, And(i != 0, INC(lr(lrs, i), x)))
def chain(v, lrs, i, x, c): k = pk(i, c); d = D(v, pk(x, c)); return imp(And(INC(i, x), D(v, k) != 0), And(d != 0, INC(D(v, k), d)))
def acc_spec(fn, explore):
    def req(ex, st):
        o = orc(ex, st); g = st.ghost; n = z3.BitVec("len", 64); st.assume(ult(n, bv(1 << 60))); q = ex.new_array(st, "query", 1, n, 8); v = View(ex, st); a = z3.BitVec("a", 64); Q = ex.arr(st, q, 0, 8); factor = z3.Bool("factor"); g.update(q=q, Q=Q, len=n, a=a, factor=factor)
        st.assume(imp(factor, And(ule(a, v.n), ule(n, v.n - a))), Forall(lambda j: imp(And(factor, ult(j, n)), Sel(Q, j) == Sel(v.CK, a + j)), "j", name="j"))
        st.assume(imp(ule(a, v.n), INC(a, bv(0))))      # lemma: every chain ends in state 0
        if not explore: return [Ptr(o), Ptr(q), n]
        e = ex.new_struct("exp", 24); st.mem[(e.id, 0)] = n; st.mem[(e.id, 8)] = Ptr(q); st.mem[(e.id, 16)] = bv(0); g["e"] = e; return [Ptr(o), Ptr(e)]
    def pos(L):
        g = L.st.ghost; return ex_cell(L) if explore else L.v("pos")
    def ex_cell(L): return L.ex.cell(L.st, L.st.ghost["e"], 16)
    def loops(ex, blk, n):
        def inv(L):
            st = L.st; g = st.ghost; v = g["v"]; i = pos(L); s = L.v("state"); c = Sel(g["Q"], i); st.term("k", pk(s, c)); st.term("k", pk(g["a"] + i, c)); st.term("j", i); st.assume(chain(v, g["lrs"], g["a"] + i, s, c))
            yield "position", ule(i, g["len"]); yield "state is ahead of the position", And(ule(s, v.n), ule(i, s)); yield "a factor is on the suffix chain", imp(g["factor"], INC(g["a"] + i, s))
        return Loop("follow the query", inv, lambda L: L.st.ghost["len"] - pos(L), roles={"state": 64, **({} if explore else {"pos": 64})})
    def ens(ex, p, st, r):
        g = st.ghost; v = g["v"]; yield "every factor is accepted", imp(g["factor"], r); yield "nothing longer than the text is accepted", imp(r, ule(g["len"], v.n))
        if explore: x = ex.cell(st, g["e"], 16); yield "position", And(ule(x, g["len"]), r == (x == g["len"]))
    return Spec(fn, req, ens, loops=loops, title="FactorOracle::accept" + (" (explorer)" if explore else ""))
# ---- lemmas
class Free:
    def __init__(v, t=""):
        v.n, v.N, v.F = (z3.BitVec(x + t, 64) for x in ("n", "N", "F")); v.CK = z3.Const("CK", A8); v.NX, v.PV = z3.Const("NX", A32), z3.Const("PV", A32); v.UT = z3.Const("UT", A8); v.T = z3.Const("T", A64)
for m in ("chk", "nx", "pv", "ut", "listed"): setattr(Free, m, View.__dict__[m])
def lemmas():
    o, w = Free(), Free(); x = z3.BitVec("slot", 64); w.NX, w.UT = Sto(o.NX, x, E32), Sto(o.UT, x, bv(0, 8)); out = []; F = [f for _, f in flist(o)] + [o.ut(x), x != 0, ult(o.N, NL)]
    def ground(t, u): return [fl_front(o)] + [f(o, y) for y in (t, o.nx(t), o.pv(t), o.F, u) for f in (fl_next, fl_prev, fl_order)] + [fl_succ(o, t, u)] + F[-3:]
    t, u = z3.BitVecs("t u", 64)
    for l, g in (("front", fl_front(w)), ("next", fl_next(w, t)), ("previous", fl_prev(w, t)), ("order", fl_order(w, t)), ("successor", fl_succ(w, t, u))): out.append((f"giving up a used slot leaves the free list alone: {l}", ground(t, u), g))
    e = Free("_e"); out.append(("the empty free list is well-formed", [e.N == 0, e.F == 0], And(fl_front(e), fl_next(e, t), fl_prev(e, t), fl_order(e, t), fl_succ(e, t, u))))
    lrs = z3.Const("lrs", A32); v = o; i = z3.BitVec("i", 64); c = z3.BitVec("c", 8); k = pk(i, c); p = lr(lrs, i); q = D(v, k); q2 = D(v, pk(p, c)); small = And(ule(i, v.n), ult(v.n, TL)); fo = imp(And(i != 0, q != 0), And(q2 != 0, Or(q2 == q, q2 == lr(lrs, q))))
    out.append(("every factor stays on the suffix chain (induction over the chain)", [small, fo, ult(p, TL), inc_def(lrs, i, x), inc_def(lrs, q, D(v, pk(x, c))), inc_def(lrs, q, q), imp(i != 0, chain(v, lrs, p, x, c))], chain(v, lrs, i, x, c)))
    out.append(("every chain ends in state 0 (induction)", [inc_def(lrs, i, bv(0)), imp(i != 0, And(ult(p, i), INC(p, bv(0))))], INC(i, bv(0))))
    return out
SPECS = [sn_spec(), rs_spec(), ex_spec(), tr_spec(), fb_spec(), gt_spec(), it_spec(), build_spec(), ctor_spec("w_build_range", 168, "FactorOracle builder: construction from a range", False), ctor_spec("re:" + FB + r"FactorOracleBaseCTAFOBuilder\(std::basic_string_view", 168, "FactorOracle builder: construction from a text", True), ctor_spec("w_oracle", 72, "FactorOracle: construction", False), image_spec(), acc_spec("w_accept", False), acc_spec("w_explore", True)]
def units():
    K = KEEP_VEC + [r"sim_ds::BitVector::", r"BitReference", r"BitConstReference", FB + r"(_build|_resize|_expand_block|_find_base|_insert_trans|get_transes|set_next|transition)\("]
    return [dict(tu="oracle.cpp", keep=K, specs=SPECS, models=BITS + LIB.models() + THROW)]
