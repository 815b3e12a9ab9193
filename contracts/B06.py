"""Fixed-width integer vector: element i occupies the bits [i*w, (i+1)*w) of the storage."""
from contracts.common import *
from contracts.vecs import *
from contracts.B01 import getbit
REPLAY = "B06.cpp"
LEVEL = "proof"
NOTE = "Every FitVector operation (construction, element read/write incl. straddling words, resize, assign, push_back, conversion from integer vectors) is proved for every width 1..64, every index and every length, including memory safety and the absence of effects on neighbouring elements; std::vector and std::max_element are trusted contracts."
ASSUMPTIONS = ["indices are below size(); written values fit the width", "lengths below 2^40 elements"]
BW, MASK, SZ, VEC = 0, 8, 16, 24
LIM = bv(1 << 40)
B = z3.BitVecSort(64)
P = z3.Function("P", B, B)          # P(j) = j*w, the first bit of element j
And, ult, ule, lsr, Sel = z3.And, z3.ULT, z3.ULE, z3.LShR, z3.Select

def step_lem(b, j): return P(j + 1) == P(j) + b
def ord_lem(b, i, j): return imp(And(ult(i, j), ule(j, LIM)), And(ule(P(i) + b, P(j)), ule(P(i), bv(1 << 46))))
def lim_lem(b, i): return imp(ule(i, LIM), ule(P(i), bv(1 << 46)))
def lemmas():
    i, j, b, k, p, x0, x1 = z3.BitVecs("i j b k p x0 x1", 64); o = p & 63
    val = (lsr(x0, o) | z3.If(ule(o + b, 64), bv(0), x1 << (64 - o))) & mask(b); q = o + k
    rd = [ule(1, b), ule(b, 64), ult(k, 64)]
    return [("read is the w bits", rd, kbit(val, k) == And(ult(k, b), z3.If(ult(q, 64), kbit(x0, q), kbit(x1, q - 64))), "bv"), ("P(0) = 0", [], bv(0) * b == 0, "mul"), ("P(j+1) = P(j)+w", [], (j + 1) * b == j * b + b, "mul"),
            ("P(j) <= 64j, induction", [ule(1, b), ule(b, 64), ult(j, LIM), ule(P(j), 64 * j), step_lem(b, j)], And(ule(P(j + 1), 64 * (j + 1)), ule(64 * (j + 1), bv(1 << 46)))),
            ("i<j -> P(i)+w <= P(j), base", [ule(1, b), ule(b, 64), ult(i, LIM), step_lem(b, i)], ule(P(i) + b, P(i + 1))),
            ("i<j -> P(i)+w <= P(j), induction", [ule(1, b), ule(b, 64), ult(i, j), ult(j, LIM), ule(P(j), 64 * j), ule(P(i) + b, P(j)), step_lem(b, j)], ule(P(i) + b, P(j + 1)))]

def mulhook(ex, st, a, b):
    w = st.ghost.get("b")
    if w is None: return None
    for x, y in ((a, b), (b, a)):
        if z3.eq(z3.simplify(y), w):
            x = z3.simplify(x); c = conc(x)
            if c is not None and c <= 1: return bv(0) if c == 0 else w
            st.assume(lim_lem(w, x)); note(st, x)
            return P(x)
    return None
def note(st, x):
    """x is an element index: order it against the other known ones"""
    w = st.ghost["b"]; x = z3.simplify(x); L = st.ghost.setdefault("elems", ())
    if any(z3.eq(x, y) for y in L): return
    st.assume(P(bv(0)) == 0, ord_lem(w, bv(0), x), step_lem(w, x), lim_lem(w, x), lim_lem(w, x + 1))
    for y in L: st.assume(ord_lem(w, x, y), ord_lem(w, y, x), imp(x == y, P(x) == P(y)), imp(x == y + 1, P(x) == P(y) + w), imp(y == x + 1, P(y) == P(x) + w))
    st.ghost["elems"] = L + (x,); st.term("elem", x)
    st.term(("idx", "bits"), lsr(P(x), 6))

class V:
    def __init__(self, ex, st, o):
        self.b = ex.cell(st, o, BW); self.mask = ex.cell(st, o, MASK); self.n = ex.cell(st, o, SZ); self.st = st
        self.r, self.a, self.words = ex.vec(st, o, VEC)
    def bit(self, j, k): return getbit(self.a, P(j) + k)
    def val(self, j, b):
        """element as a word: low bits from the word P/64, the rest from the next one"""
        p = P(j); w, o = lsr(p, 6), p & 63
        return (lsr2(Sel(self.a, w), o) | z3.If(ule(o + b, 64), bv(0), Sel(self.a, w + 1) << (64 - o))) & mask(b)
    def wf(self, b):
        n = self.n
        yield "width and mask", And(self.b == b, self.mask == mask(b))
        yield "storage is exactly the words of the elements", self.words == z3.If(n == 0, bv(0), lsr(P(n) - 1, 6) + 1)
        yield "bits after the last element are zero", Forall(lambda w: And(imp(And(ult(w, self.words), ule(P(n), w << 6)), Sel(self.a, w) == 0), imp(And(w == lsr(P(n), 6), ult(w, self.words)), lsr2(Sel(self.a, w), P(n) & 63) == 0)), "idx", name="w")
def lsr2(x, k): return z3.LShR(x, k)

def make(ex, st, width=None):
    o = ex.new_struct("fv", 48); b = width if width is not None else z3.BitVec("w", 64); n = z3.BitVec("size", 64)
    st.mem[(o.id, BW)] = b; st.mem[(o.id, MASK)] = z3.BitVec("mask", 64); st.mem[(o.id, SZ)] = n
    st.assume(ule(1, b), ule(b, 64), ult(n, LIM)); st.ghost.update(o=o, b=b, n=n)
    ex.make_vec(st, o, VEC, "bits", 8, z3.BitVec("words", 64)); st.assume(ult(z3.BitVec("words", 64), bv(1 << 50)))
    note(st, n)
    v = V(ex, st, o)
    for _, g in v.wf(b): st.assume(g)
    return o
def each(cond, b, v, f, *others):
    """every element j with cond(j) is f(j); stated bit by bit (an element is its w bits: lemma 'read is the w bits')"""
    def body(j, k): return imp(And(cond(j), ult(k, b)), v.bit(j, k) == f(j, k)), ext(b, j, *others) + [("idx", lsr(P(j) + k, 6))]
    return Forall(body, ["elem", "kbit"], name="j")
def same(b, old, new, n): return each(lambda j: ult(j, n), b, new, lambda j, k: old.bit(j, k), n)
def kbit(x, k): return Extract0(x, k)
def Extract0(x, k): return z3.Extract(0, 0, z3.LShR(x, k)) == 1
def ext(b, j, *others):
    L = [("src", j), (None, step_lem(b, j)), (None, lim_lem(b, j)), (None, lim_lem(b, j + 1)), ("idx", lsr(P(j), 6)), ("idx", lsr(P(j), 6) + 1)]
    for y in others: L += [(None, ord_lem(b, j, y)), (None, ord_lem(b, y, j)), (None, ord_lem(b, j + 1, y)), (None, imp(y == j, P(y) == P(j))), (None, imp(y == j + 1, P(y) == P(j + 1)))]
    return L

def op(fn, title, args, pre, post, fresh=False, loops=(), pure=False):
    def req(ex, st):
        if fresh:
            o = ex.new_struct("fv", 48); st.ghost.update(o=o)
        else: o = make(ex, st)
        vals = []
        for a in args: v = z3.BitVec(a, 64); st.ghost[a] = v; vals.append(v)
        if fresh: st.ghost["b"] = st.ghost["wd"]
        st.assume(*pre(st.ghost["b"], None if fresh else V(ex, st, o), *vals))
        for a in args:
            if a in ("i", "j", "m"): note(st, st.ghost[a])
        return [Ptr(o)] + vals
    def ens(ex, p, st, r):
        g = st.ghost; o = g["o"]; b = g["b"]; new = V(ex, st, o); old = None if fresh else V(ex, p, o); note(st, new.n)
        for x in new.wf(b): yield x
        for x in post(b, old, new, r, *[g[a] for a in args]): yield x
        if pure: yield "size unchanged", new.n == old.n; yield "no element changed", same(b, old, new, old.n)
    return Spec(fn, req, ens, loops=loops, title=title, mul=mulhook)

def fill_loop(ex, blk, n):
    """elements [lo, i) hold the value, elements before lo are untouched, everything from i on is zero"""
    def inv(L):
        st = L.st; g = st.ghost; o = g["o"]; b = g["b"]; i = L.v("i"); v = V(ex, st, o); hi = v.n; lo = L.e.v("i")
        e = V(ex, L.e.st, o); val = g["x"]
        note(st, i); note(st, lo)
        yield "counter", And(ule(lo, i), z3.Or(ule(i, hi), i == lo))
        yield "shape", And(v.words == z3.If(hi == 0, bv(0), lsr(P(hi) - 1, 6) + 1), v.b == b, v.mask == mask(b), ult(hi, LIM))
        yield "elements written so far", each(lambda j: And(ule(lo, j), ult(j, i)), b, v, lambda j, k: kbit(val, k), i, lo, hi)
        yield "earlier elements kept", each(lambda j: And(ult(j, lo), ult(j, hi)), b, v, lambda j, k: e.bit(j, k), i, lo, hi)
        yield "bits after the last element are zero", list(v.wf(b))[2][1]
    return Loop("write elements", inv, lambda L: V(ex, L.st, L.st.ghost["o"]).n - L.v("i"), roles={"i": 64})

def specs():
    S = []; fits = lambda b, x: ule(x, mask(b))
    one = lambda b, v, i, *a: [ult(i, v.n)] + ([fits(b, a[0])] if a else [])
    wd = lambda b: [ule(1, b), ule(b, 64)]
    S.append(op("w_ctor", "FitVector(w)", ["wd"], lambda b, v, w: wd(b), lambda b, o, v, r, w: [("empty", v.n == 0)], fresh=True))
    zero = lambda b, v, n, x=bv(0): each(lambda j: ult(j, n), b, v, lambda j, k: kbit(x, k), n)
    S.append(op("w_ctorn", "FitVector(w,n)", ["wd", "m"], lambda b, v, w, m: wd(b) + [ult(m, LIM)], lambda b, o, v, r, w, m: [("size", v.n == m), ("all zero", zero(b, v, m))], fresh=True))
    S.append(op("w_ctorv", "FitVector(w,n,x)", ["wd", "m", "x"], lambda b, v, w, m, x: wd(b) + [ult(m, LIM), fits(b, x)], lambda b, o, v, r, w, m, x: [("size", v.n == m), ("all x", zero(b, v, m, x))], fresh=True, loops=fill_loop))
    for fn, t in (("w_get", "operator[]"), ("w_getc", "operator[] const")): S.append(op(fn, t, ["i"], one, lambda b, o, v, r, i: [("the addressed element", r == o.val(i, b))], pure=True))
    for fn, t in (("w_at", "at"), ("w_atc", "at const")): S.append(op(fn, t, ["i"], lambda b, v, i: [ult(i, LIM)], lambda b, o, v, r, i: [("returns only for valid positions", ult(i, o.n)), ("the addressed element", r == o.val(i, b))], pure=True))
    S.append(op("w_front", "front", [], lambda b, v: [v.n != 0], lambda b, o, v, r: [("first", r == o.val(bv(0), b))], pure=True))
    S.append(op("w_back", "back", [], lambda b, v: [v.n != 0], lambda b, o, v, r: [("last", r == o.val(o.n - 1, b))], pure=True))
    upd = lambda b, o, v, i, x: [("size unchanged", v.n == o.n), ("exactly the addressed element changes", each(lambda j: ult(j, o.n), b, v, lambda j, k: z3.If(j == i, kbit(x, k), o.bit(j, k)), o.n, i))]
    S.append(op("w_set", "reference = value", ["i", "x"], one, lambda b, o, v, r, i, x: upd(b, o, v, i, x)))
    S.append(op("w_setref", "reference = reference", ["i", "j"], lambda b, v, i, j: [ult(i, v.n), ult(j, v.n)], lambda b, o, v, r, i, j: upd(b, o, v, i, o.val(j, b))))
    grow = lambda b, o, v, m, x: [("size", v.n == m), ("existing elements kept, new ones equal the requested value", each(lambda j: ult(j, m), b, v, lambda j, k: z3.If(ult(j, o.n), o.bit(j, k), kbit(x, k)), o.n, m))]
    S.append(op("w_resize", "resize(n)", ["m"], lambda b, v, m: [ult(m, LIM)], lambda b, o, v, r, m: grow(b, o, v, m, bv(0))))
    S.append(op("w_resizev", "resize(n,x)", ["m", "x"], lambda b, v, m, x: [ult(m, LIM), fits(b, x)], lambda b, o, v, r, m, x: grow(b, o, v, m, x), loops=fill_loop))
    S.append(op("w_assign", "assign(n,x)", ["m", "x"], lambda b, v, m, x: [ult(m, LIM), fits(b, x)], lambda b, o, v, r, m, x: [("size", v.n == m), ("all x", zero(b, v, m, x))], loops=fill_loop))
    S.append(op("w_push", "push_back", ["x"], lambda b, v, x: [ult(v.n + 1, LIM), fits(b, x)], lambda b, o, v, r, x: grow(b, o, v, o.n + 1, x)))
    S.append(op("w_reserve", "reserve", ["m"], lambda b, v, m: [ult(m, LIM)], lambda b, o, v, r, m: [], pure=True))
    S.append(op("w_size", "size", [], lambda b, v: [], lambda b, o, v, r: [("size", r == o.n)], pure=True))
    S.append(op("w_width", "unit_width", [], lambda b, v: [], lambda b, o, v, r: [("width", r == b)], pure=True))
    S.append(op("w_empty", "empty", [], lambda b, v: [], lambda b, o, v, r: [("iff size is zero", r == (o.n == 0))], pure=True))
    return S + [from_vec("w_from64", 8), from_vec("w_from32", 4)]

# ---- conversion from integer vectors
def m_max(ex, st, ins, args):
    """std::max_element over a whole array: an element no other element exceeds"""
    p, q = args[0], args[1]; r = p.r; n = z3.simplify(q.o.div(r.stride)[0].bv() - ex.idx_of(st, p)); m = fresh("maxpos"); a = ex.arr(st, r)
    st.assume(imp(n != 0, ult(m, n))); st.assume(Forall(lambda k: imp(ult(k, n), ule(Sel(a, k), Sel(a, m))), "src")); st.term("src", m); st.ghost["max"] = zx(Sel(a, m))
    return Ptr(r, Lin(0, ((r.stride, m),)))
m_max.label = "std::max_element (trusted library contract)"
def m_fits(ex, st, ins, args):
    x = zx(args[0]); s = fresh("width"); st.assume(And(ule(1, s), ule(s, 64), ule(x, mask(s)))); st.ghost["b"] = s
    return s
m_fits.label = "calc::SizeFitsInBits: the value fits the returned width 1..64 (proved under B23)"
def from_vec(fn, sz):
    def req(ex, st):
        o = ex.new_struct("fv", 48); so = ex.new_struct("a", 24); n = z3.BitVec("n", 64); st.assume(ult(n, LIM))
        s = ex.make_vec(st, so, 0, "src", sz, n); st.ghost.update(o=o, src=s, n=n)
        return [Ptr(o), Ptr(so)]
    def loops(ex, blk, n):
        def inv(L):
            st = L.st; g = st.ghost; b = g["b"]; v = V(ex, st, g["o"]); i = L.ix("src"); sa = ex.arr(st, g["src"])
            note(st, i)
            yield "length so far", And(v.n == i, ule(i, g["n"]))
            for x in v.wf(b): yield x
            yield "elements so far", each(lambda j: ult(j, i), b, v, lambda j, k: kbit(zx(Sel(sa, j)), k), i)
        def terms(L): L.st.term("src", L.ix("src"))
        return Loop("push elements", inv, lambda L: L.st.ghost["n"] - L.ix("src"), terms=terms)
    def ens(ex, p, st, r):
        g = st.ghost; v = V(ex, st, g["o"]); n = g["n"]
        yield "size", v.n == n
        if "b" in g:
            b = g["b"]; note(st, n); sa = ex.arr(st, g["src"])
            for x in v.wf(b): yield x
            yield "every element preserved", each(lambda j: ult(j, n), b, v, lambda j, k: kbit(zx(Sel(sa, j)), k), n)
        else: yield "no elements", n == 0
    return Spec(fn, req, ens, loops=loops, title=f"FitVector(vector<uint{8*sz}_t>)", mul=mulhook)

def units():
    return [dict(tu="fitvector.cpp", keep=KEEP_VEC + [r"SizeFits", r"max_element"], specs=specs(), models=VecLib(name=lambda p: "bits").models() + THROW + [(re.compile(r"max_element"), m_max), (re.compile(r"SizeFitsInBits"), m_fits)])]
