"""Bit vector: a growable sequence of bits."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B01.cpp"
LEVEL = "proof"
NOTE = "Every BitVector operation (constructors, element and iterator access, fill, resize, assign, push_back) is proved against the bit-sequence contract for all sizes and positions, including memory safety; std::vector members are trusted contracts."
ASSUMPTIONS = ["arguments are valid positions of the vector (0 <= i < size, iterators within [begin,end])", "sizes below 2^57 bits"]
LIM = bv(1 << 57)
SZ, VEC0 = 0, 8      # layout of _BitVector: actual_size_, storage_ {begin,end,cap}

def nwords(n): return z3.If(n == 0, bv(1), z3.UDiv(n - 1, bv(64)) + 1) if False else z3.If(n == 0, bv(1), z3.LShR(n - 1, bv(6)) + 1)
def getbit(a, p): return z3.Extract(0, 0, z3.LShR(z3.Select(a, z3.LShR(p, bv(6))), p & 63)) == 1
def word_terms(st, p): st.term(("idx", "bits"), z3.LShR(p, bv(6)))

class BVv:
    """view of a BitVector object in a state"""
    def __init__(self, ex, st, o, off=0):
        self.n = ex.cell(st, o, off + SZ); self.r, self.a, self.words = ex.vec(st, o, off + VEC0)
    def bit(self, p): return getbit(self.a, p)
def make_bv(ex, st, name="bv", limit=LIM):
    o = ex.new_struct(name, 32); n = z3.BitVec(name + ".size", 64); st.mem[(o.id, 0)] = n
    st.assume(z3.ULT(n, limit))
    ex.make_vec(st, o, VEC0, "bits", 8, nwords(n))
    return o
def fresh_bv(ex, st, name="bv"): return ex.new_struct(name, 32)
def wf(v): return v.words == nwords(v.n)
def F(body):
    """for every position p; the word index of p is an instantiation term"""
    return Forall(lambda p: (body(p), [("idx", z3.LShR(p, bv(6))), ("pos", p)]), "pos", name="p")

def P(name): return z3.BitVec(name, 64)
def op(fn, title, args, pre, post, fresh=False, loops=(), pure=False):
    """args: names (64-bit) or ('b', bool)"""
    def req(ex, st):
        o = fresh_bv(ex, st) if fresh else make_bv(ex, st)
        st.ghost["o"] = o; vals = []
        for a in args: v = z3.Bool(a) if a == "b" else P(a); st.ghost[a] = v; vals.append(v); (word_terms(st, v) if a != "b" else None)
        if not fresh:
            v = BVv(ex, st, o); st.assume(*pre(v, *vals))
        else: st.assume(*pre(None, *vals))
        return [Ptr(o)] + vals
    def ens(ex, pre_, st, r):
        g = st.ghost; o = g["o"]; new = BVv(ex, st, o); old = None if fresh else BVv(ex, pre_, o)
        vals = [g[a] for a in args]
        yield "storage covers the bits", wf(new)
        for x in post(old, new, r, *vals): yield x
        if pure: yield "size unchanged", new.n == old.n; yield "no position changed", F(lambda p: imp(z3.ULT(p, old.n), new.bit(p) == old.bit(p)))
    return Spec(fn, req, ens, loops=loops, title=title)

def ind(c): return [] if c is None else [c]
def fill_loops(ex, blk, n):
    """word-filling loop of _fill: everything strictly between the first word and the cursor is filled"""
    def inv(L):
        k = L.ix("bits"); k0 = L.e.ix("bits"); st = L.st; o = st.ghost["o"]
        r, a, words = ex.vec(st, o, VEC0); a0 = ex.arr(L.e.st, r); b = st.ghost["b"]
        f = z3.If(b, bv((1 << 64) - 1), bv(0))
        yield "cursor in range", z3.And(z3.UGE(k, k0), z3.ULE(k, words))
        yield "filled so far", Forall(lambda w: z3.Select(a, w) == z3.If(z3.And(z3.UGE(w, k0), z3.ULT(w, k)), f, z3.Select(a0, w)), "idx")
        lim = fill_last(ex, st, L)
        yield "cursor at most the last word", imp(z3.ULE(k0, lim), z3.ULE(k, lim))
    def dec(L): return ex.vec(L.st, L.st.ghost["o"], VEC0)[2] - L.ix("bits")
    return Loop("fill words", inv, dec)
def fill_last(ex, st, L):
    """index of the last word of the filled range"""
    return z3.LShR(st.ghost["end"] - 1, bv(6))

def copy_loop(src):
    def loops(ex, blk, n):
        def inv(L):
            st = L.st; o = st.ghost["o"]; r, a, words = ex.vec(st, o, VEC0); s = st.ghost["src"]; sa = ex.arr(st, s)
            i = L.ix("src"); w = L.ix("bits"); c = L.int(0)
            yield "cursor", z3.And(z3.ULE(i, s.size), w == z3.LShR(i, bv(6)), c == i & 63)
            yield "copied so far", F(lambda p: imp(z3.ULT(p, i), getbit(a, p) == src(z3.Select(sa, p))))
        def step(L, H): i = H.ix("src"); L.st.term(("idx", "pos", "src"), i)
        def terms(L): L.st.term(("idx",), L.ix("bits")); L.st.term(("idx", "pos"), L.ix("src"))
        return Loop("copy bits", inv, lambda L: L.st.ghost["src"].size - L.ix("src"), terms=terms, step=step)
    return loops

def from_array(fn, title, by_vec, src):
    def req(ex, st):
        o = fresh_bv(ex, st); n = P("n"); st.assume(z3.ULT(n, LIM))
        if by_vec:
            so = ex.new_struct("a", 24); s = ex.make_vec(st, so, 0, "src", 1, n); args = [Ptr(o), Ptr(so)]
        else:
            s = ex.new_array(st, "src", 1, n, readonly=True); args = [Ptr(o), Ptr(s), n]
            a = ex.arr(st, s); st.assume(Forall(lambda k: z3.ULE(z3.Select(a, k), 1), ["src"]))
        st.ghost.update(o=o, src=s, n=n); return args
    def ens(ex, pre, st, r):
        v = BVv(ex, st, st.ghost["o"]); s = st.ghost["src"]; sa = ex.arr(st, s)
        yield "storage covers the bits", wf(v); yield "size is the source size", v.n == st.ghost["n"]
        yield "every position holds its source element", F(lambda p: imp(z3.ULT(p, v.n), v.bit(p) == src(z3.Select(sa, p))))
    return Spec(fn, req, ens, loops=copy_loop(src), title=title)

def specs():
    S = []; ult = z3.ULT; ule = z3.ULE
    S.append(op("w_ctor0", "BitVector()", [], lambda v: [], lambda o, v, r: [("empty", v.n == 0)], fresh=True))
    S.append(op("w_ctor", "BitVector(n)", ["n"], lambda v, n: [ult(n, LIM)], lambda o, v, r, n: [("size n", v.n == n), ("all bits clear", F(lambda p: imp(ult(p, n), z3.Not(v.bit(p)))))], fresh=True))
    def with_end(sp, e):
        q = sp.requires
        def req(ex, st):
            a = q(ex, st); st.ghost["end"] = st.ghost[e] if isinstance(e, str) else e(ex, st); word_terms(st, st.ghost["end"] - 1); word_terms(st, st.ghost["end"]); return a
        sp.requires = req; return sp
    S.append(with_end(op("w_ctorb", "BitVector(n,b)", ["n", "b"], lambda v, n, b: [ult(n, LIM)], lambda o, v, r, n, b: [("size n", v.n == n), ("all bits equal b", F(lambda p: imp(ult(p, n), v.bit(p) == b)))], fresh=True, loops=fill_loops), "n"))
    S.append(from_array("w_ctor_arr", "BitVector(container)", True, lambda x: x != 0))
    S.append(from_array("w_ctor_il", "BitVector(initializer_list)", False, lambda x: x != 0))
    one = lambda v, i, *a: [ult(i, v.n)]
    for fn, t in (("w_get", "operator[]"), ("w_getc", "operator[] const")): S.append(op(fn, t, ["i"], one, lambda o, v, r, i: [("the addressed bit", r == o.bit(i))], pure=True))
    for fn, t in (("w_at", "at const"), ("w_atm", "at")): S.append(op(fn, t, ["i"], lambda v, i: [], lambda o, v, r, i: [("returns only for valid positions", ult(i, o.n)), ("the addressed bit", r == o.bit(i))], pure=True))
    S.append(op("w_front", "front", [], lambda v: [v.n != 0], lambda o, v, r: [("first bit", r == o.bit(bv(0)))], pure=True))
    S.append(op("w_back", "back", [], lambda v: [v.n != 0], lambda o, v, r: [("last bit", r == o.bit(o.n - 1))], pure=True))
    same = lambda o, v, c, x: [("size unchanged", v.n == o.n), ("exactly the addressed positions change", F(lambda p: imp(ult(p, o.n), v.bit(p) == z3.If(c(p), x, o.bit(p)))))]
    S.append(op("w_set", "reference = bool", ["i", "b"], one, lambda o, v, r, i, b: same(o, v, lambda p: p == i, b)))
    S.append(op("w_setref", "reference = reference", ["i", "j"], lambda v, i, j: [ult(i, v.n), ult(j, v.n)], lambda o, v, r, i, j: same(o, v, lambda p: p == i, o.bit(j))))
    grow = lambda o, v, n, b: [("size", v.n == n), ("existing positions kept, new ones equal the requested value", F(lambda p: imp(ult(p, n), v.bit(p) == z3.If(ult(p, o.n), o.bit(p), b))))]
    S.append(with_end(op("w_push", "push_back", ["b"], lambda v, b: [], lambda o, v, r, b: grow(o, v, o.n + 1, b), loops=fill_loops), lambda ex, st: BVv(ex, st, st.ghost["o"]).n + 1))
    def rz(ex, st): st.ghost["b"] = z3.BoolVal(False); return st.ghost["n"]
    S.append(with_end(op("w_resize", "resize(n)", ["n"], lambda v, n: [ult(n, LIM)], lambda o, v, r, n: grow(o, v, n, z3.BoolVal(False)), loops=fill_loops), rz))
    S.append(with_end(op("w_resizeb", "resize(n,b)", ["n", "b"], lambda v, n, b: [ult(n, LIM)], lambda o, v, r, n, b: grow(o, v, n, b), loops=fill_loops), "n"))
    S.append(with_end(op("w_assign", "assign(n,b)", ["n", "b"], lambda v, n, b: [ult(n, LIM)], lambda o, v, r, n, b: [("size n", v.n == n), ("all bits equal b", F(lambda p: imp(ult(p, n), v.bit(p) == b)))], loops=fill_loops), "n"))
    S.append(op("w_reserve", "reserve", ["n"], lambda v, n: [ult(n, LIM)], lambda o, v, r, n: [], pure=True))
    S.append(op("w_shrink", "shrink_to_fit", [], lambda v: [], lambda o, v, r: [], pure=True))
    S.append(op("w_size", "size", [], lambda v: [], lambda o, v, r: [("size", r == o.n)], pure=True))
    S.append(op("w_empty", "empty", [], lambda v: [], lambda o, v, r: [("true iff size is zero", r == (o.n == 0))], pure=True))
    S.append(with_end(op("w_fill", "fill(first,last,b)", ["i", "j", "b"], lambda v, i, j, b: [ule(i, j), ule(j, v.n)], lambda o, v, r, i, j, b: same(o, v, lambda p: z3.And(z3.UGE(p, i), ult(p, j)), b), loops=fill_loops), "j"))
    S.append(op("w_it_write", "*iterator = bool", ["i", "b"], one, lambda o, v, r, i, b: same(o, v, lambda p: p == i, b)))
    def mv(fn, t, f): S.append(op(fn, t, ["i", "d"], lambda v, i, d: [ule(i, v.n), ult(f(i, d), v.n)] + ([z3.And(d < LIM, d > -LIM)]), lambda o, v, r, i, d: [("the bit at the moved position", r == o.bit(f(i, d)))], pure=True))
    mv("w_it_add", "iterator +=", lambda i, d: i + d); mv("w_it_sub", "iterator -=", lambda i, d: i - d); mv("w_it_addop", "iterator + n", lambda i, d: i + d); mv("w_it_subop", "iterator - n", lambda i, d: i - d); mv("w_it_idx", "iterator[n]", lambda i, d: i + d)
    S.append(op("w_it_inc", "++iterator", ["i"], lambda v, i: [ult(i + 1, v.n), ult(i, v.n)], lambda o, v, r, i: [("next bit", r == o.bit(i + 1))], pure=True))
    S.append(op("w_it_dec", "--iterator", ["i"], lambda v, i: [ule(i, v.n), i != 0], lambda o, v, r, i: [("previous bit", r == o.bit(i - 1))], pure=True))
    S.append(op("w_it_enddec", "--end()", [], lambda v: [v.n != 0], lambda o, v, r: [("last bit", r == o.bit(o.n - 1))], pure=True))
    two = lambda v, i, j: [ule(i, v.n), ule(j, v.n)]
    S.append(op("w_it_diff", "iterator difference", ["i", "j"], two, lambda o, v, r, i, j: [("difference of positions", r == i - j)], pure=True))
    S.append(op("w_it_len", "end() - begin()", [], lambda v: [], lambda o, v, r: [("size", r == o.n)], pure=True))
    for fn, t, f in (("eq", "==", lambda i, j: i == j), ("ne", "!=", lambda i, j: i != j), ("lt", "<", ult), ("le", "<=", ule), ("gt", ">", z3.UGT), ("ge", ">=", z3.UGE)):
        S.append(op("w_it_" + fn, "iterator " + t, ["i", "j"], two, lambda o, v, r, i, j, f=f: [("compares positions", r == f(i, j))], pure=True))
    return S

def units():
    return [dict(tu="bitvector.cpp", keep=KEEP_VEC, specs=specs(), models=VecLib(name=lambda p: "bits").models() + THROW)]
