"""Binary heap contracts shared by B11 and B12.  Element with identifier k (1..n) is a[k-1]; key(x) orders the elements, the parent's key is never smaller."""
import re
from contracts.common import *
And, Or, ult, ule, Sel = z3.And, z3.Or, z3.ULT, z3.ULE, z3.Select
LIM = bv(1 << 57)
B64 = z3.BitVecSort(64)

class Order:
    """key: element -> 64-bit key; w: element width"""
    def __init__(self, key, w=64):
        self.key = key; self.w = w; self.A = z3.ArraySort(B64, z3.BitVecSort(w))
        self.CNT = z3.Function(f"occurrences{w}", self.A, B64, B64)      # occurrences of the (arbitrary) value vv among the first k elements
        self.vv = z3.BitVec(f"vv{w}", w)
    def one(self, x): return z3.If(x == self.vv, bv(1), bv(0))
    def step(self, a, k): return And(self.CNT(a, bv(0)) == 0, self.CNT(a, k + 1) == self.CNT(a, k) + self.one(Sel(a, k)))
    def st_(self, a, i, v, k): return self.CNT(z3.Store(a, i, v), k) == self.CNT(a, k) + z3.If(ult(i, k), self.one(v) - self.one(Sel(a, i)), bv(0))
    def stores(self, a, k):
        out = []
        while z3.is_store(a): out.append(self.st_(a.arg(0), a.arg(1), a.arg(2), k)); a = a.arg(0)
        return out
    def ext(self, st, a, b, n):
        """equal prefixes have equal counts: either the counts agree or some position below n differs"""
        d = fresh("diff"); st.term(("pos", "idx"), d)
        st.assume(Or(self.CNT(a, n) == self.CNT(b, n), And(ult(d, n), Sel(a, d) != Sel(b, d))))
    def K(self, a, k): return self.key(Sel(a, k - 1))
    def H(self, a, n, k): return imp(And(ule(2, k), ule(k, n)), ule(self.K(a, k), self.K(a, z3.LShR(k, 1))))
    def heap(self, a, n, lo=1, hole=None):
        """heap order at every identifier whose parent is at least lo (except below `hole`)"""
        lo = bv(lo) if isinstance(lo, int) else lo
        c = lambda k: And(ule(lo, z3.LShR(k, 1)), *( [z3.LShR(k, 1) != hole] if hole is not None else []))
        return Forall(lambda k: imp(c(k), self.H(a, n, k)), "id", name="k")
    def grand(self, a, n, lo, id):
        """children of id respect the parent of id"""
        return Forall(lambda k: imp(And(z3.LShR(k, 1) == id, ule(2, k), ule(k, n), ule(lo, z3.LShR(id, 1)), ule(2, id)), ule(self.K(a, k), self.K(a, z3.LShR(id, 1)))), "id", name="k")
    def top(self, a, n): return Forall(lambda k: imp(And(ule(1, k), ule(k, n)), ule(self.K(a, k), self.K(a, bv(1)))), "id", name="k")
    def bounded(self, a, n, M): return Forall(lambda k: imp(And(ule(1, k), ule(k, n)), ule(self.K(a, k), M)), "id", name="k")
    def outside(self, a, old, n): return Forall(lambda p: imp(ule(n, p), Sel(a, p) == Sel(old, p)), ("pos",), name="p")
    def lemmas(self):
        a, b = z3.Const("a", self.A), z3.Const("b", self.A); i, k, n = z3.BitVecs("i k n", 64); v = z3.BitVec("v", self.w); s = z3.Store(a, i, v); t = f" ({self.w} bit)"
        return [("count after a write, base" + t, [self.step(a, k), self.step(s, k)], self.st_(a, i, v, bv(0))), ("count after a write, induction" + t, [self.step(a, k), self.step(s, k), self.st_(a, i, v, k), k != bv((1 << 64) - 1)], self.st_(a, i, v, k + 1)),
                ("counts of equal prefixes, induction" + t, [self.step(a, k), self.step(b, k), self.CNT(a, k) == self.CNT(b, k), Sel(a, k) == Sel(b, k)], self.CNT(a, k + 1) == self.CNT(b, k + 1)),
                ("the root dominates, strong induction" + t, [ule(2, k), ule(k, n), ult(n, LIM), self.H(a, n, k), ule(self.K(a, z3.LShR(k, 1)), self.K(a, bv(1)))], ule(self.K(a, k), self.K(a, bv(1))))]

def ids(st, *xs):
    for x in xs: st.term("id", x)

class Heapify:
    """contract of Heapify(id), used for the recursive call and by every caller; data(ex, st, this) -> (set_array, array, n)"""
    def __init__(self, O, data): self.O = O; self.data = data
    def pre(self, a, n, lo, id, M):
        O = self.O
        yield "identifier is positive", And(ule(1, id), ule(lo, id), ule(1, lo))
        yield "heap order everywhere except below the identifier", O.heap(a, n, lo, id)
        yield "children respect the grandparent", O.grand(a, n, lo, id)
        if M is not None: yield "bounded", O.bounded(a, n, M)
    def post(self, a, b, n, lo, M):
        O = self.O
        yield "heap order restored", O.heap(b, n, lo)
        yield "multiset of elements kept", O.CNT(b, n) == O.CNT(a, n)
        yield "elements beyond the heap untouched", O.outside(b, a, n)
        if M is not None: yield "bounded", O.bounded(b, n, M)
    def model(self, ex, st, ins, args):
        o, id = args; put, a, n = self.data(ex, st, o); g = st.ghost; O = self.O
        lo = g.get("lo", id); M = g["M"](ex, st) if "M" in g else None
        ids(st, id, id * 2, id * 2 + 1)
        for x in O.stores(a, n): st.assume(x)
        for l, f in self.pre(a, n, lo, id, M): ex.oblige(st, "precondition of Heapify: " + l, f)
        if "id0" in g: ex.oblige(st, "recursion terminates: the identifier grows and stays within the heap", And(ult(g["id0"], id), ule(id, n)))
        b = fresh_arr("heap", O.w); put(b)
        for l, f in self.post(a, b, n, lo, M): st.assume(f)
        return None
    model.label = "Heapify (contract proved in this check, including its recursive call)"
    def spec(self, fn, title, make):
        """make(ex, st) -> this region"""
        O = self.O
        def req(ex, st):
            o = make(ex, st); id, lo = z3.BitVecs("id lo", 64); g = st.ghost; put, a, n = self.data(ex, st, Ptr(o))
            st.assume(ult(id, LIM)); g.update(o=o, id0=id, lo=lo, a0=a)
            if self.bounded_: 
                Mv = z3.BitVec("M", 64); g["M"] = lambda ex, st: Mv
            ids(st, id, id * 2, id * 2 + 1)
            for l, f in self.pre(a, n, lo, id, g["M"](ex, st) if self.bounded_ else None): st.assume(f)
            return [Ptr(o), id]
        def ens(ex, p, st, r):
            g = st.ghost; put, b, n = self.data(ex, st, Ptr(g["o"])); _, a, n0 = self.data(ex, p, Ptr(g["o"]))
            for x in O.stores(b, n): st.assume(x)
            yield "size kept", n == n0
            for x in self.post(a, b, n, g["lo"], g["M"](ex, st) if self.bounded_ else None): yield x
        def loops(ex, blk, k):
            # an iterative formulation satisfies the same contract: the precondition is the invariant
            def inv(L):
                st = L.st; g = st.ghost; put, b, n = self.data(ex, st, Ptr(g["o"])); _, a, n0 = self.data(ex, ex.pre, Ptr(g["o"])); i = L.v("id"); ids(st, i, i * 2, i * 2 + 1)
                for x in O.stores(b, n): st.assume(x)
                yield "shape", And(n == n0, ult(i, LIM))
                for x in self.pre(b, n, g["lo"], i, g["M"](ex, st) if self.bounded_ else None): yield x
                yield "multiset of elements kept", O.CNT(b, n) == O.CNT(a, n)
                yield "elements beyond the heap untouched", O.outside(b, a, n)
            return Loop("sift down", inv, lambda L: LIM - L.v("id"), roles={"id": 64})
        return Spec(fn, req, ens, loops=loops, title=title)
    bounded_ = False
