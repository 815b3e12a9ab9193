"""In-place heap sort: permutation, sortedness, frame."""
from contracts.heap import *
REPLAY = "B12.cpp"
LEVEL = "proof"
NOTE = "Heapify (including its recursive call), the build loop and the extraction loop are proved for every range and for an arbitrary strict weak order (uninterpreted key function), for the default order on unsigned and signed elements: result sorted, permutation of the input (occurrence count of an arbitrary value), no access outside the range, termination. Iterators are instantiated as pointers."
ASSUMPTIONS = ["the comparison is a strict weak order without side effects, represented by an order-preserving key", "iterators are pointers (random-access iterators with the same semantics behave alike)", "fewer than 2^57 elements"]

def sorter(fn, mangled, O, sz, title, models=()):
    def cells(ex, st, o):
        b, e = ex.cell(st, o.r, 0, ptr=True), ex.cell(st, o.r, 8, ptr=True)
        return b.r, ex.idx_of(st, e)
    def data(ex, st, o):
        r, n = cells(ex, st, o); return (lambda x: ex.set_arr(st, r, x)), ex.arr(st, r), n
    HF = Heapify(O, data); HF.bounded_ = True
    def make(ex, st):
        N, n = z3.BitVecs("N n", 64); st.assume(ule(n, N), ult(N, LIM)); r = ex.new_array(st, "range", sz, N); o = ex.new_struct("sorter", 24)
        st.mem[(o.id, 0)] = Ptr(r); st.mem[(o.id, 8)] = Ptr(r, Lin(0, ((sz, n),))); return o
    def req(ex, st):
        n = z3.BitVec("n", 64); st.assume(ult(n, LIM)); r = ex.new_array(st, "range", sz, n); st.ghost.update(r=r, n=n)
        return [Ptr(r), Ptr(r, Lin(0, ((sz, n),)))]
    def end_of(ex, st):
        """current length of the heap: the sorter object's end pointer (the last local object holding two pointers into the range)"""
        c = [v for k, v in st.mem.items() if len(k) == 2 and k[1] == 8 and isinstance(v, Ptr) and v.r is st.ghost["r"]]
        if not c: raise Unsupported("sorter object not found")
        return ex.idx_of(st, c[-1])
    def Mnow(ex, st):
        e = end_of(ex, st); a = ex.arr(st, st.ghost["r"]); return z3.If(ult(e, st.ghost["n"]), O.key(Sel(a, e)), bv((1 << 64) - 1))
    def loops(ex, blk, k):
        r = lambda st: st.ghost["r"]
        a0 = lambda: ex.arr(ex.pre, ex.pre.ghost["r"])
        if k == 0:
            def inv(L):
                st = L.st; n = st.ghost["n"]; a = ex.arr(st, r(st)); i = L.v("id"); ids(st, i, i + 1); st.ghost["M"] = Mnow
                yield "counter", And(ule(i, z3.LShR(n, 1)), end_of(ex, st) == n)
                yield "heap order below the counter", O.heap(a, n, i + 1)
                yield "multiset kept", O.CNT(a, n) == O.CNT(a0(), n)
            return Loop("build", inv, lambda L: L.v("id"), roles={"id": 64})
        def inv(L):
            st = L.st; g = st.ghost; n = g["n"]; a = ex.arr(st, r(st)); e = end_of(ex, st); ids(st, bv(1), e, e + 1); st.term("pos", e); st.term("pos", e - 1)
            for x in O.stores(a, n) + O.stores(a, e): st.assume(x)
            yield "length of the heap", ule(e, n)
            yield "heap order", O.heap(a, e)
            yield "everything in the heap is at most everything behind it", Forall(lambda k: imp(And(ule(1, k), ule(k, e), ult(e, n)), ule(O.K(a, k), O.key(Sel(a, e)))), "id", name="k")
            yield "the part behind the heap is in order", Forall(lambda p: (imp(And(ule(e, p), ult(p, n), ult(p + 1, n)), ule(O.key(Sel(a, p)), O.key(Sel(a, p + 1)))), [("pos", p + 1)]), "pos", name="p")
            yield "multiset kept", O.CNT(a, n) == O.CNT(a0(), n)
            st.assume(O.top(a, e))     # lemma 'the root dominates'
            # the split count: elements inside the heap and behind it
        return Loop("extract", inv, lambda L: end_of(ex, L.st))
    def model(ex, st, ins, args):
        g = st.ghost
        if "id0" in g: return HF.model(ex, st, ins, args)
        # the heap covers the first e elements; its contract speaks about those, the whole range follows
        put, a, e = data(ex, st, args[0]); n = g["n"]; st.term("pos", e); st.term("pos", e - 1)
        for x in O.stores(a, n) + O.stores(a, e): st.assume(x)
        HF.model(ex, st, ins, args)
        b = ex.arr(st, g["r"]); d = fresh("diff"); st.term("pos", d)
        # lemma 'equal counts of a prefix and equal elements behind it': either the counts agree or some element behind the heap differs
        st.assume(Or(O.CNT(a, n) == O.CNT(b, n), O.CNT(a, e) != O.CNT(b, e), z3.UGT(e, n), And(ule(e, d), ult(d, n), Sel(a, d) != Sel(b, d)))); return None
    model.label = HF.model.label
    def ens(ex, p, st, ret):
        g = st.ghost; n = g["n"]; a = ex.arr(st, g["r"]); b = ex.arr(p, g["r"])
        for x in O.stores(a, n): st.assume(x)
        yield "in order (adjacent elements)", Forall(lambda p: imp(And(ult(p, n), ult(p + 1, n)), ule(O.key(Sel(a, p)), O.key(Sel(a, p + 1)))), "pos", name="p")
        yield "permutation of the input", O.CNT(a, n) == O.CNT(b, n)
    hs = HF.spec(mangled, f"Heapify ({title})", make)
    return [hs, Spec(fn, req, ens, loops=loops, title=f"HeapSort ({title})")], model
KEY = z3.Function("rank_of", B64, B64)
def user_less(ex, st, ins, args): return ult(KEY(args[0]), KEY(args[1]))
user_less.label = "caller's comparison: an arbitrary strict weak order"

SIGN = bv(1 << 63)
def lemmas():
    out = []
    for O in (Order(lambda x: KEY(x)), Order(lambda x: x), Order(lambda x: sx(x) ^ SIGN, 32)):
        out += [x for x in O.lemmas() if x[0] not in [y[0] for y in out] or "root" in x[0]]
        a, b = z3.Const("a", O.A), z3.Const("b", O.A); k, e = z3.BitVecs("k e", 64)
        out.append((f"equal counts of a prefix and equal elements behind it, induction ({O.w} bit)", [O.step(a, k), O.step(b, k), O.CNT(a, k) == O.CNT(b, k), Sel(a, k) == Sel(b, k)], O.CNT(a, k + 1) == O.CNT(b, k + 1)))
    return out
def units():
    HK = (re.compile(r"::Heapify\("),); U = []
    for fn, rx, O, sz, t in (("w_sort", r"^sim_ds::HeapSorter<unsigned long\*, Less>::Heapify\(", Order(lambda x: KEY(x)), 8, "arbitrary order"),
                             ("w_sort_def", r"^sim_ds::HeapSorter<unsigned long\*, void .*::Heapify\(", Order(lambda x: x), 8, "default order, unsigned"),
                             ("w_sort_int", r"^sim_ds::HeapSorter<int\*, void .*::Heapify\(", Order(lambda x: sx(x) ^ SIGN, 32), 4, "default order, signed")):
        specs, model = sorter(fn, "re:" + rx, O, sz, t)
        U.append(dict(tu="heapsort.cpp", keep=[r"::Heapify\("], specs=specs, models=[(re.compile(r"::Heapify\("), model), (re.compile(r"user_less"), user_less)]))
    return U
