"""Records of byte-width fields: field f of record i occupies the bytes [i*bs + pos_f, i*bs + pos_f + size_f) of the storage, bs = record size."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B09.cpp"
LEVEL = "proof"
NOTE = "Every accessor (template and run-time field ids, const and non-const blocks, restricted reads), record assignment, resize with and without values, append and layout configuration is proved for every layout of fields of up to 8 bytes and every record count; the record-offset product is an uninterpreted function constrained by lemmas proved over the integers."
ASSUMPTIONS = ["field widths at most 8 bytes (values are 64-bit), at least one field, nonzero record size", "records * record size below 2^57 bytes", "whole-record writes checked with two values per record"]
And, Or, ult, ule, Sel = z3.And, z3.Or, z3.ULT, z3.ULE, z3.Select
B = z3.BitVecSort(64); NB = 8
O = z3.Function("record_offset", B, B)
LIM = bv(1 << 57)
def ordl(bs, i, j): return imp(ult(i, j), ule(O(i) + bs, O(j)))
def note(st, x):
    """x is a record index known to be at most the registered bound: its offset is below 2^57 and ordered against the others"""
    bs = st.ghost["bs"]; x = z3.simplify(x); L = st.ghost.get("recs", ())
    if any(z3.eq(x, y) for y in L): return
    st.assume(ult(O(x), LIM), imp(x == 0, O(x) == 0), ule(x, O(x)))
    for y in L: st.assume(ordl(bs, x, y), ordl(bs, y, x), imp(x == y, O(x) == O(y)), imp(x == y + 1, O(x) == O(y) + bs), imp(y == x + 1, O(y) == O(x) + bs))
    st.ghost["recs"] = L + (x,); st.term("rec", x)
def pair(bs, i, j): return And(ordl(bs, i, j), ordl(bs, j, i))
def mul(ex, st, a, b):
    g = st.ghost
    if "bs" not in g or a.size() != 64: return None
    for x, y in ((a, b), (b, a)):
        if z3.eq(z3.simplify(y), z3.simplify(g["bs"])) or (conc(y) is None and conc(x) is None and ex.quick(st, y == g["bs"])):
            ex.safety(st, "record index within the addressable storage", ule(x, g["max"])); note(st, x); return O(z3.simplify(x))
    return None
def div(ex, st, op, a, b):
    a = z3.simplify(a)
    if op == "udiv" and z3.is_app(a) and a.decl().eq(O): return a.arg(0)          # lemma 'record count'
    return None

class MV:
    def __init__(self, ex, st, o):
        r, _, self.m = ex.vec(st, o, 0); self.P, self.Z = ex.arr(st, r, 0, 64), ex.arr(st, r, 8, 64)
        self.r, self.a, self.len = ex.vec(st, o, 24)
    def at(self, i, f): return [("byte", z3.simplify(O(i) + Sel(self.P, f) + k)) for k in range(NB)]
    def byte(self, i, f, k): return Sel(self.a, O(i) + Sel(self.P, f) + k)
    def field(self, i, f, n=NB):
        v = bv(0)
        for k in range(n): v = v | z3.If(ult(bv(k), Sel(self.Z, f)), zx(self.byte(i, f, k)) << (8 * k), bv(0))
        return v
    def holds(self, i, f, x): return And(*[imp(ult(bv(k), Sel(self.Z, f)), self.byte(i, f, k) == z3.Extract(8 * k + 7, 8 * k, x)) for k in range(NB)])
def sizemask(z): return z3.If(ule(bv(8), z), bv((1 << 64) - 1), (bv(1) << (z * 8)) - 1)

def make(ex, st, extra=()):
    o = ex.new_struct("mv", 48); m, n, bs, mx = z3.BitVecs("fields records bs maxrec", 64)
    st.assume(ule(bv(2), m), ult(m, bv(1 << 30)), ule(bv(1), bs), ult(bs, bv(1 << 34)), ule(n, mx))
    r = Region("table", "array", stride=16, size=m, kinds=("fld",)); st.mem[(r.id, 0, 64)] = fresh_arr("pos", 64); st.mem[(r.id, 8, 64)] = fresh_arr("size", 64); ex.bind_vec(st, o, 0, r, m)
    P, Z = st.mem[(r.id, 0, 64)], st.mem[(r.id, 8, 64)]
    st.assume(bs == Sel(P, m - 1) + Sel(Z, m - 1)); st.term("fld", m - 1)
    st.assume(Forall(lambda f: imp(ult(f, m), And(ule(Sel(Z, f), NB), ule(Sel(P, f), bs), ule(Sel(P, f) + Sel(Z, f), bs))), "fld"))
    for f in (0, 1): st.term("fld", bv(f))
    st.assume(ule(Sel(P, bv(0)) + Sel(Z, bv(0)), Sel(P, bv(1))))
    st.ghost.update(o=o, n=n, bs=Sel(P, m - 1) + Sel(Z, m - 1), max=mx, B=bs); note(st, mx); note(st, n)
    ex.make_vec(st, o, 24, "bytes", 1, O(n), kinds=("byte",)); return o

def op(fn, title, args, pre, post, loops=(), grow=False):
    def req(ex, st):
        o = make(ex, st); vs = [z3.BitVec(x, 64) for x in args]; st.ghost["args"] = vs
        for x, v in zip(args, vs):
            if x == "i": note(st, v); st.assume(ult(v, st.ghost["n"]))
            if x == "f": st.term("fld", v)
        g = st.ghost; A = dict(zip(args, vs)); v = MV(ex, st, o); g.update(f=A.get("f", one), x=A.get("x"), rec=A.get("i", g["n"]))
        if "y" in A: g["xs"] = [A["x"], A["y"]]
        for f in ((0, 1) if "y" in A and "k" not in A else ()): g["f"] = bv(f); st.assume(fits(v, g["rec"], bv(f), g)); [st.term("byte", x) for _, x in v.at(g["rec"], bv(f))]
        st.assume(fits(v, g["rec"], g["f"], g))
        st.assume(*pre(MV(ex, st, o), st.ghost, *vs)); return [Ptr(o)] + vs
    def ens(ex, p, st, r):
        g = st.ghost; o, v = MV(ex, p, g["o"]), MV(ex, st, g["o"])
        yield "layout unchanged", And(v.m == o.m, v.P == o.P, v.Z == o.Z)
        for x in post(o, v, r, g, *g["args"]): yield x
    return Spec(fn, req, ens, loops=loops, title=title, mul=mul, div=div)
def rloop(lim=NB):
    """reading loop: the value holds the bytes read so far"""
    def inv(L):
        g = L.st.ghost; v = MV(L.ex, L.st, g["o"]); i = L.v("i"); f = g.get("f", one); w = Sel(v.Z, f); w = z3.If(ult(w, lim), w, bv(lim)) if lim < NB else w
        yield "counter", ule(i, w)
        for k in range(lim): yield f"byte {k} of the value", z3.Extract(8 * k + 7, 8 * k, zx(L.v("value"))) == z3.If(ult(bv(k), i), v.byte(g["rec"], f, k), bv(0, 8))
        if lim < NB: yield "no further bytes", z3.Extract(63, 8 * lim, zx(L.v("value"))) == 0
    return Loop("read the bytes of a field", inv, lambda L: bv(NB) - L.v("i"), roles={"i": 64, "value": 64})
def wloop():
    def setup(L):
        g = L.st.ghost; g["nth"] = g.get("nth", -1) + 1
    def inv(L):
        st = L.st; g = st.ghost; v, e = MV(L.ex, st, g["o"]), MV(L.ex, L.e.st, g["o"]); i = L.v("i")
        f, x, rec = g["f"], g["x"], g["rec"]
        if "xs" in g: k = g["nth"] % len(g["xs"]); f, x = bv(k), g["xs"][k]
        lo = O(rec) + Sel(v.P, f); st.assume(fits(v, rec, f, g))
        yield "counter", ule(i, Sel(v.Z, f))
        for k in range(NB): yield f"byte {k} written", imp(ult(bv(k), i), v.byte(rec, f, k) == z3.Extract(8 * k + 7, 8 * k, x))
        yield "other bytes untouched", Forall(lambda p: imp(Or(ult(p, lo), ule(lo + Sel(v.Z, f), p)), Sel(v.a, p) == Sel(e.a, p)), "byte", name="p")
    return Loop("write the bytes of a field", inv, lambda L: bv(NB) - L.v("i"), roles={"i": 64}, setup=setup)
def fits(v, rec, f, g):
    """lemma 'a field lies within the storage'"""
    lo = O(rec) + Sel(v.P, f); return imp(ult(f, v.m), And(ule(lo + Sel(v.Z, f), O(rec) + g["B"]), ule(O(rec), lo), ule(lo, lo + Sel(v.Z, f)), ult(O(rec) + g["B"], LIM + LIM), ule(Sel(v.Z, f), NB)))
W = wloop()
nop = lambda v, g, *a: []
same = lambda o, v: ("storage unchanged", And(v.len == o.len, v.a == o.a))
one = bv(1)
def getter(fn, title, n=NB):
    return op(fn, title, ["i"], nop, lambda o, v, r, g, i: [("the field's value", zx(r) == o.field(i, one, n)), same(o, v)], [rloop(n)])
def written(o, v, g, i, f, x):
    lo = O(i) + Sel(o.P, f)
    yield "every byte of the field is written", v.holds(i, f, x)
    yield "the value reads back", imp(x & sizemask(Sel(o.Z, f)) == x, v.field(i, f) == x)
    yield "no other byte changes", And(v.len == o.len, True)
    yield "other fields and records unchanged", Forall(lambda p: imp(Or(ult(p, lo), ule(lo + Sel(o.Z, f), p)), Sel(v.a, p) == Sel(o.a, p)), "byte", name="p")
def setter(fn, title): return op(fn, title, ["i", "x"], nop, lambda o, v, r, g, i, x: [("returns the value", r == x), *written(o, v, g, i, one, x)], [W])
def newbytes(o, v, n): return Forall(lambda p: Sel(v.a, p) == z3.If(ult(p, o.len), Sel(o.a, p), bv(0, 8)) if n is None else imp(ult(p, n), Sel(v.a, p) == z3.If(ult(p, o.len), Sel(o.a, p), bv(0, 8))), "byte", name="p")
def two(o, v, g, i, x, y):
    lo = O(i)
    yield "first field", v.holds(i, bv(0), x)
    yield "second field", v.holds(i, one, y)
    yield "all other bytes unchanged", Forall(lambda p: imp(And(ult(p, v.len), *[Or(ult(p, lo + Sel(o.P, bv(f))), ule(lo + Sel(o.P, bv(f)) + Sel(o.Z, bv(f)), p)) for f in (0, 1)]), Sel(v.a, p) == z3.If(ult(p, o.len), Sel(o.a, p), bv(0, 8))), "byte", name="p")
LISTS = lambda ex, blk, n: Loop("values of the record", unroll=3) if n == 0 else W
def setup_size(g, v, n): v.st.ghost
S = [getter("w_get", "nested_element"), getter("w_bget", "block get"), getter("w_cget", "const block get"), getter("w_rget", "restricted get", 4), getter("w_crget", "const restricted get", 4),
     setter("w_set", "set_nested_element"), setter("w_bset", "block set"),
     op("w_getat", "get_at", ["i", "f"], lambda v, g, i, f: [ult(f, v.m)], lambda o, v, r, g, i, f: [("the field's value", r == o.field(i, f)), same(o, v)], [rloop()]),
     op("w_setat", "set_at", ["i", "f", "x"], lambda v, g, i, f, x: [ult(f, v.m)], lambda o, v, r, g, i, f, x: list(written(o, v, g, i, f, x)), [W]),
     op("w_assign", "record assignment", ["i", "x", "y"], nop, lambda o, v, r, g, i, x, y: [("length", v.len == o.len), *two(o, v, g, i, x, y)], LISTS),
     op("w_bsize", "block_size", [], nop, lambda o, v, r, g: [("sum of the widths", r == g["B"]), same(o, v)]),
     op("w_esize", "element_size", ["f"], lambda v, g, f: [ult(f, v.m)], lambda o, v, r, g, f: [("the width", r == Sel(o.Z, f)), same(o, v)]),
     op("w_size", "size", [], nop, lambda o, v, r, g: [("number of records", r == g["n"]), same(o, v)]),
     op("w_resize", "resize", ["k"], lambda v, g, k: [ule(k, g["max"])], lambda o, v, r, g, k: [("length", v.len == O(k)), ("surviving records kept, new bytes zero", newbytes(o, v, O(k)))]),
     op("w_reserve", "reserve", ["k"], lambda v, g, k: [ule(k, g["max"])], lambda o, v, r, g, k: [same(o, v)]),
     op("w_eback", "emplace_back", [], lambda v, g: [ult(g["n"], g["max"])], lambda o, v, r, g: [("one more record", v.len == O(g["n"] + 1)), ("existing records kept, new bytes zero", newbytes(o, v, O(g["n"] + 1)))]),
     op("w_push", "push_back", ["x", "y"], lambda v, g, x, y: [ult(g["n"], g["max"])], lambda o, v, r, g, x, y: [("one more record", v.len == O(g["n"] + 1)), *two(o, v, g, g["n"], x, y)], LISTS)]
def fill_loops(ex, blk, n):
    if n == 1: return Loop("values of the record", unroll=3)
    if n == 2:
        w = wloop(); w.after = lambda st, L: st.terms.pop("byte", None); return w
    def inv(L):
        st = L.st; g = st.ghost; g["rec"] = L.v("i"); k, x, y = g["args"]; v, e = MV(ex, st, g["o"]), MV(ex, ex_pre(ex), g["o"]); i = L.v("i"); nn = g["n"]
        yield "counter", And(ule(nn, i), ule(i, k), v.len == O(k)); 
        note(st, i); note(st, i + 1); st.assume(fits(v, i, bv(0), g), fits(v, i, one, g))
        yield "surviving records kept", Forall(lambda p: imp(ult(p, O(nn)), Sel(v.a, p) == Sel(e.a, p)), "byte", name="p")
        for nm, f, w in (("first", bv(0), x), ("second", one, y)): yield f"new records so far hold the {nm} value", Forall(lambda j, f=f, w=w: (imp(And(ule(nn, j), ult(j, i)), v.holds(j, f, w)), [(None, pair(g["B"], j, i)), (None, pair(g["B"], j, z3.simplify(i - 1))), (None, pair(g["B"], nn, j)), (None, fits(v, j, bv(0), g)), (None, fits(v, j, one, g)), *v.at(j, f)]), f"nrec{f}", name="j")
    return Loop("fill the new records", inv, lambda L: L.st.ghost["args"][0] - L.v("i"), roles={"i": 64})
def ex_pre(ex): return ex.pre
def fillpost(o, v, r, g, k, x, y):
    nn = g["n"]
    yield "length", v.len == O(k)
    yield "surviving records kept", Forall(lambda p: imp(And(ult(p, O(nn)), ult(p, O(k))), Sel(v.a, p) == Sel(o.a, p)), "byte", name="p")
    for nm, f, w in (("first", bv(0), x), ("second", one, y)): yield f"new records hold the {nm} value", Forall(lambda j, f=f, w=w: (imp(And(ule(nn, j), ult(j, k)), v.holds(j, f, w)), [(None, pair(g["B"], j, k)), (None, fits(v, j, bv(0), g)), (None, fits(v, j, one, g)), *v.at(j, f)]), f"nrec{f}", name="j")
S.append(op("w_fill", "resize with values", ["k", "x", "y"], lambda v, g, k, x, y: [ule(k, g["max"])], fillpost, fill_loops))
# ---- layout configuration
def wreq(ex, st):
    o = make(ex, st); s = ex.new_struct("sizes", 24); n = z3.BitVec("nsizes", 64); st.assume(ule(bv(1), n), ult(n, bv(1 << 40))); ex.make_vec(st, s, 0, "sizes", 8, n, kinds=("fld",)); st.ghost["s"] = s; return [Ptr(o), Ptr(s)]
def table(ex, st):
    r = st.vecs[(st.ghost["o"].id, 0)]; return ex.arr(st, r, 0, 64), ex.arr(st, r, 8, 64), r.size
def laid(Pz, Zz, sz, n): return Forall(lambda f: (imp(ult(f, n), And(Sel(Zz, f) == Sel(sz, f), Sel(Pz, f) == z3.If(f == 0, bv(0), Sel(Pz, f - 1) + Sel(Zz, f - 1)))), []), "fld", name="f")
def wens(ex, p, st, r):
    P, Z, m = table(ex, st); _, s, n = ex.vec(p, st.ghost["s"], 0)
    yield "one entry per width", m == n
    yield "fields are laid out consecutively from 0", laid(P, Z, s, n)
def wloops(ex, blk, n):
    def inv(L):
        st = L.st; P, Z, m = table(ex, st); _, s, c = ex.vec(ex.pre, st.ghost["s"], 0); i = L.ix("sizes"); st.term("fld", i); st.term("fld", m - 1)
        yield "one entry per width read", And(m == i, ule(i, c), L.v("pos") == z3.If(i == 0, bv(0), Sel(P, i - 1) + Sel(Z, i - 1)))
        yield "fields so far are laid out consecutively", laid(P, Z, s, i)
    return Loop("lay out the fields", inv, lambda L: L.st.vecs[(L.st.ghost["s"].id, 0)].size - L.ix("sizes"), roles={"pos": 64})
S.append(Spec("w_widths", wreq, wens, loops=wloops, title="set_element_sizes"))
def ireq(ex, st):
    o = ex.new_struct("mv", 48); st.ghost["o"] = o; a = [z3.BitVec(x, 64) for x in "abc"]; st.ghost["args"] = a; return [Ptr(o)] + a
def iens(ex, p, st, r):
    P, Z, m = table(ex, st); a, b, c = st.ghost["args"]
    yield "layout", And(m == 3, Sel(Z, bv(0)) == a, Sel(Z, bv(1)) == b, Sel(Z, bv(2)) == c, Sel(P, bv(0)) == 0, Sel(P, bv(1)) == a, Sel(P, bv(2)) == a + b)
    yield "no records", ex.vec(st, st.ghost["o"], 24)[2] == 0
S.append(Spec("w_init", ireq, iens, loops=[Loop("list", unroll=4)], title="constructor from widths"))
ELT = {"sim_ds::MultipleVector::Element": (16, [(0, 64), (8, 64)])}
def units():
    return [dict(tu="multivec.cpp", keep=KEEP_VEC, specs=S, models=VecLib(sizes=ELT).models() + THROW)]
def lemmas():
    i, j, b, n = z3.Ints("i j b n"); f, k, p1, z1, p2, z2, o1, o2, bs = z3.BitVecs("f k p1 z1 p2 z2 o1 o2 bs", 64)
    w = lambda v, n: (ule(v, n))
    return [("a field lies within the storage", [ult(o1, LIM), ult(bs, bv(1 << 34)), ule(p1 + z1, bs), ule(p1, bs), ule(z1, NB)], And(ule(o1 + p1 + z1, o1 + bs), ule(o1, o1 + p1), ule(o1 + p1, o1 + p1 + z1), ult(o1 + bs, LIM + LIM))),
            ("records do not overlap (integers)", [i >= 0, b >= 1, i < j], i * b + b <= j * b, "int"), ("offset of record 0 and of the next record", [b >= 1], And(0 * b == 0, (i + 1) * b == i * b + b), "int"),
            ("offset is at least the index", [i >= 0, b >= 1], i * b >= i, "int"), ("record count: i*b/b = i", [b >= 1, i >= 0], (i * b) / b == i, "int"),
            ("fields of different records do not share bytes", [ule(o1 + bs, o2), ult(o2, LIM), ult(bs, LIM), ule(p1 + z1, bs), ule(p1, bs), ule(p2 + z2, bs), ule(p2, bs), ule(z1, NB), ule(z2, NB), ult(o1, LIM)], ule(o1 + p1 + z1, o2 + p2))]
