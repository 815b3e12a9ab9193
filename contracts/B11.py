"""Heap: order, multiset and top element, for both directions."""
from contracts.heap import *
from contracts.vecs import *
REPLAY = "B11.cpp"
LEVEL = "proof"
NOTE = "Heapify (with its recursive call through its own contract), Build, push, pop, front and every constructor are proved for all heaps: heap order, exact multiset (through an occurrence-count ghost function for an arbitrary value), the root dominating every element, memory safety and termination; std::vector is a trusted contract."
ASSUMPTIONS = ["pop and front are called on non-empty heaps", "fewer than 2^57 elements"]

class VL(VecLib):
    def resize(self, ex, st, ins, args):
        p, n = args[0], z3.simplify(args[1]); old = self.cur(st, p)
        if old is not None and ex.quick(st, ule(n, old.size)):
            # shrinking keeps the first n elements; what lies beyond the new size is unobservable
            r = Region(old.name, "array", stride=old.stride, size=n, kinds=old.kinds)
            for k, a in list(st.mem.items()):
                if k[0] == old.id and len(k) == 3: st.mem[(r.id,) + k[1:]] = a
            self.bind(ex, st, p, r, n, old); return None
        return super().resize(ex, st, ins, args)

def unit(asc):
    O = Order((lambda x: ~x) if asc else (lambda x: x))
    def data(ex, st, o):
        r, a, n = ex.vec(st, o.r, 0)
        return (lambda b: ex.set_arr(st, r, b)), a, n
    HF = Heapify(O, data)
    def make(ex, st):
        o = ex.new_struct("heap", 24); n = z3.BitVec("n", 64); st.assume(ult(n, LIM - 1)); ex.make_vec(st, o, 0, "base", 8, n); st.ghost.update(o=o); return o
    def op(fn, title, args, pre, post, heap=True, loops=(), pure=False):
        def req(ex, st):
            o = make(ex, st); _, a, n = data(ex, st, Ptr(o)); vs = [z3.BitVec(x, 64) for x in args]
            if heap: st.assume(O.heap(a, n))
            st.assume(*pre(n, *vs)); st.ghost["args"] = vs; ids(st, bv(1)); return [Ptr(o)] + vs
        def ens(ex, p, st, r):
            g = st.ghost; _, a, n0 = data(ex, p, Ptr(g["o"])); _, b, n = data(ex, st, Ptr(g["o"]))
            for x in O.stores(b, n): st.assume(x)
            yield "heap order", O.heap(b, n)
            for x in post(ex, p, st, a, n0, b, n, r, *g["args"]): yield x
            if pure: yield "unchanged", And(n == n0, b == a)
        return Spec(fn, req, ens, loops=loops, title=f"{title} ({'min' if asc else 'max'} heap)")
    def build_loop(a0):
        def inv(L):
            ex = L.ex; st = L.st; g = st.ghost; _, b, n = data(ex, st, Ptr(g["o"])); i = L.v("i"); _, e, ne = data(ex, L.e.st, Ptr(g["o"]))
            ids(st, i, i + 1)
            yield "counter", And(ule(i, z3.LShR(n, 1)), n == ne)
            yield "heap order below the counter", O.heap(b, n, i + 1)
            yield "multiset of elements kept", O.CNT(b, n) == O.CNT(e, n)
        return Loop("build", inv, lambda L: L.v("i"), roles={"i": 64})
    def push_loop(ex, blk, n):
        def inv(L):
            st = L.st; g = st.ghost; _, b, n = data(ex, st, Ptr(g["o"])); id = L.v("id"); _, a0, n0 = data(ex, ex.pre, Ptr(g["o"])); x = g["args"][0]
            ids(st, id, z3.LShR(id, 1), bv(1))
            for f in O.stores(b, n): st.assume(f)
            yield "identifier", And(ule(1, id), ule(id, n), n == n0 + 1)
            yield "heap order except at the identifier", Forall(lambda k: imp(And(k != id), O.H(b, n, k)), "id", name="k")
            yield "children respect the grandparent", O.grand(b, n, bv(1), id)
            if L is L.e: st.assume(O.step(b, n0), *O.stores(b, n0))
            yield "multiset is the old one plus the pushed element", O.CNT(b, n) == O.CNT(a0, n0) + O.one(x)
        return Loop("sift up", inv, lambda L: L.v("id"), roles={"id": 64})
    def popcount_(ex, p, st, a, n0, b, n, r):
        yield "size", n == n0 - 1
        last = n0 - 1; s1 = z3.Store(a, bv(0), Sel(a, last)); s2 = z3.Store(s1, last, Sel(a, bv(0)))
        st.assume(O.step(s2, last), O.st_(s1, last, Sel(a, bv(0)), last), O.st_(a, bv(0), Sel(a, last), last), O.step(a, last), O.st_(s1, last, Sel(a, bv(0)), n0), O.st_(a, bv(0), Sel(a, last), n0))
        yield "exactly one occurrence of the top element is removed", O.CNT(b, n) == O.CNT(a, n0) - O.one(Sel(a, bv(0)))
    def front(ex, p, st, a, n0, b, n, r):
        st.assume(O.top(a, n0))       # lemma 'the root dominates' (strong induction over the heap order just established)
        yield "an element of the heap", r == Sel(a, bv(0))
        yield "no element precedes it", Forall(lambda k: imp(And(ule(1, k), ule(k, n0)), ule(O.K(a, k), O.key(r))), "id", name="k")
    S = [HF.spec(f"_ZN6sim_ds4HeapILb{int(asc)}EE7HeapifyEm", f"Heapify ({'min' if asc else 'max'} heap)", make)]
    S.append(op("w_build", "Build", [], lambda n: [], lambda ex, p, st, a, n0, b, n, r: [("size kept", n == n0), ("multiset kept", O.CNT(b, n) == O.CNT(a, n))], heap=False, loops=lambda ex, blk, k: build_loop(None)))
    S.append(op("w_push", "push", ["x"], lambda n, x: [], lambda ex, p, st, a, n0, b, n, r, x: [("size", n == n0 + 1), ("exactly one occurrence of the pushed element is added", O.CNT(b, n) == O.CNT(a, n0) + O.one(x))], loops=push_loop))
    S.append(op("w_pop", "pop", [], lambda n: [n != 0], popcount_))
    S.append(op("w_front", "front", [], lambda n: [n != 0], front, pure=True))
    S.append(op("w_root", "root", [], lambda n: [], lambda ex, p, st, a, n0, b, n, r: [("first identifier", r == 1)], pure=True))
    S.append(op("w_size", "size", [], lambda n: [], lambda ex, p, st, a, n0, b, n, r: [("size", r == n0)], pure=True))
    S.append(op("w_value", "value", ["i"], lambda n, i: [ule(1, i), ule(i, n)], lambda ex, p, st, a, n0, b, n, r, i: [("the element with that identifier", r == Sel(a, i - 1))], pure=True))
    def ctor0():
        def req(ex, st): o = ex.new_struct("heap", 24); st.ghost.update(o=o); return [Ptr(o)]
        def ens(ex, p, st, r): 
            q = st.mem.get((st.ghost["o"].id, 0)); e = st.mem.get((st.ghost["o"].id, 8))
            n = data(ex, st, Ptr(st.ghost["o"]))[2] if (st.ghost["o"].id, 0) in st.vecs else bv(0 if q is e or (q is not None and q.r is None and e.r is None) else 1)
            yield "empty", n == 0
        return Spec("w_ctor0", req, ens, title="Heap()")
    S.append(ctor0())
    def ctor(fn, title, sz, rng):
        def req(ex, st):
            o = ex.new_struct("heap", 24); n = z3.BitVec("n", 64); st.assume(ult(n, LIM - 1)); g = st.ghost
            if rng:
                s = ex.new_array(st, "src", sz, n, readonly=True); args = [Ptr(s), Ptr(s, Lin(0, ((sz, n),)))]
            else:
                v = ex.new_struct("array", 24); s = ex.make_vec(st, v, 0, "src", sz, n); args = [Ptr(v)]
            g.update(o=o, n=n, s=s, sa=ex.arr(st, s)); return [Ptr(o)] + args
        def sval(g, k): x = Sel(g["sa"], k); return zx(x)
        # the source as an array of 64-bit values
        def wide(g): return g["sa"] if sz == 8 else g.setdefault("wide", z3.Const("wide_src", O.A))
        def loops(ex, blk, k):
            if k == 1: return build_loop(None)
            def inv(L):
                st = L.st; g = st.ghost; _, b, m = data(ex, st, Ptr(g["o"])); i = L.ix("src")
                yield "copied so far", And(m == i, ule(i, g["n"]))
                yield "same elements", Forall(lambda p: imp(ult(p, i), Sel(b, p) == zx(Sel(ex.arr(st, srcreg(L)), p))), ("pos", "idx"), name="p")
            def srcreg(L): return L.ptrs("src")[0].r
            return Loop("copy elements", inv, lambda L: L.st.ghost["n"] - L.ix("src"), terms=lambda L: L.st.term(("pos", "idx"), L.ix("src")), after=copied)
        def copied(st, L):
            ex = L.ex; g = st.ghost; _, b, m = data(ex, st, Ptr(g["o"])); w = wide(g)
            if sz != 8: st.assume(Forall(lambda p: Sel(w, p) == zx(Sel(g["sa"], p)), ("pos", "idx")))
            O.ext(st, b, w, g["n"])
        def ens(ex, p, st, r):
            g = st.ghost; _, b, n = data(ex, st, Ptr(g["o"]))
            yield "size", n == g["n"]; yield "heap order", O.heap(b, n)
            yield "exactly the source's multiset", O.CNT(b, n) == O.CNT(wide(g), n)
        return Spec(fn, req, ens, loops=loops, title=title)
    S += [ctor("w_ctor_vec64", "Heap(vector<uint64_t>)", 8, False), ctor("w_ctor_vec32", "Heap(vector<uint32_t>)", 4, False), ctor("w_ctor_range", "Heap(first,last)", 8, True)]
    return dict(tu="heap.cpp", defs=["-DASC=" + ("true" if asc else "false")], keep=KEEP_VEC + [r"::Heapify\("], specs=S, models=[(re.compile(r"::Heapify\("), HF.model)] + VL(name=lambda p: "base").models() + THROW)
def lemmas(): return Order(lambda x: x).lemmas() + [x for x in Order(lambda x: ~x).lemmas() if "root" in x[0]]
def units(): return [unit(True), unit(False)]
