"""Compact hash table (a quotient filter with values).  Abstract state: slot i holds the entry with home HM[i] and remainder quo(i); key k is present iff some slot
holds hash(k) = (remainder, home) and is not marked deleted.  Ghost state of a segment (slots from an unshifted slot to before the next one): CH head, CD distance from it,
O/S = number of occupied homes / run starts from the head on, FR[h] = first slot of the run of home h, LO[i] = last occupied home up to i."""
from contracts.common import *
from contracts.vecs import *
from vc.engine import lin_of, Agg, Lin
from contracts.B05 import MODELS as BM
REPLAY = "B14.cpp"
LEVEL = "other"
SMOKE = 25
NOTE = "Proved for every well-formed table, width, load and key: ToClusterHead finds the first slot of a home's run (or the place of a new run), get finds exactly the live entry of the key and its value, erase marks exactly that entry and keeps the table well-formed, set updates an existing (or revives an erased) entry in place, and otherwise moves exactly the slots up to the next free one by one place, with their remainders, flags and values, around the table end too, and writes the new entry; construction, masks and growth sizes. That this move leaves a well-formed table, and that growth (_resize) keeps the entries, is bounded: histories run against std::map."
ASSUMPTIONS = ["keys fit key_bits (1..64), values fit the value width, buckets are a power of two below 2^40", "the hash is the bijection proved under B13, FitVector the array proved under B06", "a table that is not full has a free slot (the counter used_ counts the used slots)", "reserve called from set and erase: the table afterwards is well-formed and not full (bounded)"]
BOUNDED = ["set's insertion re-establishes the well-formed table; _resize keeps exactly the live entries: random histories of up to 400 operations on tables of 1 to 128 initial buckets, key widths 1 to 64, clustered and spread keys, identity and mixing hashes, loads 10 to 90 percent, static and run-time value widths, against std::map"]
And, Or, Not, If, Sel, Sto = z3.And, z3.Or, z3.Not, z3.If, z3.Select, z3.Store
B = z3.BitVecSort(64); A64 = z3.ArraySort(B, B); LIM = bv(1 << 40); HF = z3.Function("hash_of", B, B)
def setg(ex, st, **k):
    for n, x in k.items(): st.ghost[n] = x; ex.wrote(("ghost", n))
OCC, CONT, SHF, DEL = (bv(1 << k) for k in range(4))
GH = ("HM", "CH", "CD", "O", "S", "FR", "LO")
class Tab:
    def __init__(t, ex, st):
        o = st.ghost["o"]; t.n = ex.cell(st, o, 8); t.bb = ex.cell(st, o, 16, 32); t.mask = ex.cell(st, o, 24); t.mx = ex.cell(st, o, 32); t.mn = ex.cell(st, o, 40); t.QM = ex.cell(st, o, 168); t.size = ex.cell(st, o, 176); t.used = ex.cell(st, o, 184); t.AR, t.VA, t.z = st.ghost["AR"], st.ghost["VA"], st.ghost["z"]
        for g in GH: setattr(t, g, st.ghost[g])
    def bit(t, i, m): return (Sel(t.AR, i) & m) != 0
    def occ(t, i): return t.bit(i, OCC)
    def cont(t, i): return t.bit(i, CONT)
    def shf(t, i): return t.bit(i, SHF)
    def dele(t, i): return t.bit(i, DEL)
    def full(t, i): return t.bit(i, bv(15))
    def quo(t, i): return z3.LShR(Sel(t.AR, i) & t.QM, bv(4))
    def succ(t, i): return If(i + 1 == t.n, bv(0), i + 1)
    def pred(t, i): return If(i == 0, t.n - 1, i - 1)
    def one(t, m): return lambda i: If(t.bit(i, m), bv(1), bv(0))
    def slot(t, i):
        p = t.pred(i); h = Sel(t.HM, i); l = Sel(t.LO, i); o = t.one(OCC)(i); c = If(t.cont(i), bv(0), bv(1)); f = Sel(t.FR, i); at = lambda a, x: Sel(a, x)
        return And((Sel(t.AR, i) & ~(t.QM | 15)) == 0, imp(t.full(i), And(ult(h, t.n), t.occ(h), at(t.CH, h) == at(t.CH, i), ule(at(t.CD, h), at(t.CD, i)), at(t.S, i) == at(t.O, h), ult(at(t.CD, i), t.n), ule(at(t.S, i), t.n), ule(at(t.O, i), t.n), ult(at(t.CH, i), t.n), t.full(at(t.CH, i)), Not(t.shf(at(t.CH, i))), at(t.CH, at(t.CH, i)) == at(t.CH, i),
            ult(l, t.n), t.occ(l), at(t.CH, l) == at(t.CH, i), at(t.O, l) == at(t.O, i), ule(at(t.CD, l), at(t.CD, i)),
            If(t.shf(i), And(t.full(p), at(t.CH, i) == at(t.CH, p), at(t.CD, i) == at(t.CD, p) + 1, at(t.O, i) == at(t.O, p) + o, at(t.S, i) == at(t.S, p) + c, imp(t.cont(i), h == at(t.HM, p))), And(Not(t.cont(i)), t.occ(i), h == i, at(t.CD, i) == 0, at(t.CH, i) == i, at(t.O, i) == 1, at(t.S, i) == 1)),
            imp(t.occ(i), And(ult(f, t.n), t.full(f), at(t.HM, f) == i, Not(t.cont(f)), at(t.CH, f) == at(t.CH, i))))))
    def slot_terms(t, i): return [("i", t.pred(i)), ("i", Sel(t.HM, i)), ("i", Sel(t.LO, i))]
    def pair(t, a, b):
        same = And(ult(a, t.n), ult(b, t.n), t.full(a), t.full(b), Sel(t.CH, a) == Sel(t.CH, b)); la = ult(Sel(t.CD, a), Sel(t.CD, b)); s = t.succ(a)
        return And(imp(And(same, la), And(t.shf(s), ule(Sel(t.S, a), Sel(t.S, b)), ule(Sel(t.O, a), Sel(t.O, b)), imp(Not(t.cont(b)), ult(Sel(t.S, a), Sel(t.S, b))), imp(t.occ(b), ult(Sel(t.O, a), Sel(t.O, b))))), imp(And(same, Sel(t.CD, a) == Sel(t.CD, b)), a == b),
                   imp(And(ult(a, t.n), ult(b, t.n), t.full(a), t.full(b), Sel(t.HM, a) == Sel(t.HM, b), t.quo(a) == t.quo(b)), a == b))
def config(t): return And(ult(t.n, LIM), t.n != 0, ult(t.bb, bv(41, 32)), t.n == bv(1) << zx(t.bb), t.mask == t.n - 1, (t.QM & 15) == 0, (t.QM & (t.QM + 16)) == 0)
def wf(t):
    yield "configuration", config(t)
    yield "slots", Forall(lambda i: imp(ult(i, t.n), t.slot(i)), "i", name="i")
    yield "segments and distinct keys", Forall(t.pair, ["j", "j"], name="j")
def i32(ex, st, o, off, name): st.mem[(o.id, off)] = z3.BitVec(name, 32)
def obj(ex, st):
    o = ex.new_struct("cht", 192); i32(ex, st, o, 0, "key_bits"); i32(ex, st, o, 16, "bucket_bits")
    for off, n in ((8, "n"), (24, "mask"), (32, "max"), (40, "min"), (168, "quo_mask"), (176, "size"), (184, "used")): st.mem[(o.id, off)] = z3.BitVec(n, 64)
    st.ghost.update(o=o, AR=z3.Const("AR", A64), VA=z3.Const("VA", A64), z=z3.BitVec("z", 64), **{g: z3.Const(g, A64) for g in GH}); t = Tab(ex, st); st.assume(*[f for _, f in wf(t)]); return o
def free(t): return And(ult(t.z, t.n), Not(t.full(t.z)))
def see(st, t, *xs, pair=True):
    for x in xs:
        st.term("i", x)
        if pair: st.term("j", x)
# ---- FitVector members as arrays
def which(st, p):
    if p.r is not st.ghost["o"] or p.o.const() not in (72, 120): raise Unsupported("another FitVector")
    return "AR" if p.o.const() == 72 else "VA"
def fv_at(ex, st, ins, args):
    ref, p, i = args if len(args) == 3 else (None, *args); i = z3.simplify(i); g = which(st, p); ex.safety(st, "slot in range", ult(i, ex.cell(st, p.r, 8))); st.term("i", i) if g == "AR" and st.ghost.get("terms", True) else None
    if ref is None: raise Unsupported("reference by value")
    st.mem[(ref.r.id, ref.o.const())] = Ptr(p.r, Lin(p.o.const())); st.mem[(ref.r.id, ref.o.const() + 8)] = i; ex.wrote((ref.r.id, ref.o.const())); ex.wrote((ref.r.id, ref.o.const() + 8)); return None
def ref_of(ex, st, r): p = ex.cell(st, r.r, r.o.const(), ptr=True); return which(st, p), ex.cell(st, r.r, r.o.const() + 8)
def fv_get(ex, st, ins, args): g, i = ref_of(ex, st, args[0]); return Sel(st.ghost[g], i)
def put(ex, st, g, i, v):
    st.term("m", i)
    if g == "AR": ex.safety(st, "entry fits its bits", (v & ~(ex.cell(st, st.ghost["o"], 168) | 15)) == 0)
    setg(ex, st, **{g: Sto(st.ghost[g], i, v)})
def fv_set(ex, st, ins, args): g, i = ref_of(ex, st, args[0]); put(ex, st, g, i, z3.simplify(args[1])); return args[0]
def fv_cpy(ex, st, ins, args): g, i = ref_of(ex, st, args[0]); h, j = ref_of(ex, st, args[1]); put(ex, st, g, i, Sel(st.ghost[h], j)); return args[0]
for f in (fv_at, fv_get, fv_set, fv_cpy): f.label = "FitVector element access (proved under B06)"
FV = [(re.compile(r"^sim_ds::FitVector::operator\[\]"), fv_at), (re.compile(r"^sim_ds::Bits(Const)?Reference<sim_ds::FitVector>::operator unsigned long"), fv_get), (re.compile(r"^sim_ds::BitsReference<sim_ds::FitVector>::operator=\(unsigned long"), fv_set), (re.compile(r"^sim_ds::BitsReference<sim_ds::FitVector>::operator=\("), fv_cpy)]
def m_hash(ex, st, ins, args):
    k = args[1]; x = HF(k); t = Tab(ex, st); st.assume(ult(z3.LShR(x, bv(60)), bv(16)), ule(z3.LShR(x, zx(t.bb)), z3.LShR(t.QM, bv(4)))); return x
m_hash.label = "SplitMixHash::hash stays in the key domain (proved under B13)"
# ---- ToClusterHead
def head_post(t, i, r):
    yield "in range", ult(r, t.n)
    yield "an occupied home: the first slot of its run", imp(t.occ(i), r == Sel(t.FR, i))
    yield "a free slot: itself", imp(And(Not(t.occ(i)), Not(t.shf(i))), r == i)
    p = t.pred(r); yield "otherwise behind the runs of the homes before it", imp(And(Not(t.occ(i)), t.shf(i)), Or(And(t.full(r), Sel(t.CH, r) == Sel(t.CH, i), t.shf(r), Not(t.cont(r)), Sel(t.S, r) == Sel(t.O, i) + 1), And(Not(t.shf(r)), t.full(p), Sel(t.CH, p) == Sel(t.CH, i), Sel(t.S, p) == Sel(t.O, i))))
def head_spec(s, T):
    def req(ex, st): o = obj(ex, st); i = z3.BitVec("i0", 64); st.assume(ult(i, z3.BitVec("n", 64))); st.ghost["i0"] = i; t = Tab(ex, st); see(st, t, i, Sel(t.CH, i)); see(st, t, Sel(t.LO, i), Sel(t.FR, i), Sel(t.FR, Sel(t.LO, i))); return [Ptr(o), i]
    def loops(ex, blk, k):
        def T0(t, i): return Sel(t.O, i) - t.one(OCC)(i)
        def back(L):
            st = L.st; t = Tab(ex, st); i = st.ghost["i0"]; c, n = L.v("i"), L.v("t"); see(st, t, c, t.pred(c))
            yield "in the segment of the home", And(ult(c, t.n), t.shf(c), Sel(t.CH, c) == Sel(t.CH, i), ule(Sel(t.CD, c), Sel(t.CD, i))); yield "occupied homes passed", n == T0(t, i) - (Sel(t.O, c) - t.one(OCC)(c))
        def fwd(L):
            st = L.st; t = Tab(ex, st); i = st.ghost["i0"]; c, n = L.v("i"), L.v("t"); p = t.pred(c); T = T0(t, i); l = Sel(t.LO, i); f = Sel(t.FR, l)
            if L.e is L: st.terms = {}; see(st, t, i, l, f, Sel(t.FR, i)); st.term("i", p)
            see(st, t, c); st.term("i", t.succ(c)); seg = And(t.full(c), Sel(t.CH, c) == Sel(t.CH, i), ule(n, T), Sel(t.S, c) == 1 + T - n)
            yield "in the table", And(ult(c, t.n), t.shf(i)); yield "run starts passed", imp(Or(t.occ(i), n != 0, t.shf(c)), seg); yield "at the start of the next run", imp(n == 0, And(Not(t.cont(c)), imp(t.occ(i), t.shf(c))))
            yield "an occupied home's run is not passed", imp(t.occ(i), ule(Sel(t.CD, c), Sel(t.CD, Sel(t.FR, i)))); yield "the last run of the homes before it is not passed", imp(And(Not(t.occ(i)), ult(bv(1), n)), ult(Sel(t.CD, c), Sel(t.CD, f)))
            yield "behind the segment", imp(And(n == 0, Not(t.shf(c))), And(t.full(p), Sel(t.CH, p) == Sel(t.CH, i), Sel(t.S, p) == T))
        def dec(L): t = Tab(ex, L.st); return If(L.v("t") == 0, bv(0), t.n + 1 - Sel(t.CD, L.v("i")))
        return Loop("back to the segment head", back, lambda L: Sel(Tab(ex, L.st).CD, L.v("i")), roles={"i": 64, "t": 64}) if k == 0 else Loop("forward over the runs", fwd, dec, roles={"i": 64, "t": 64})
    def ens(ex, p, st, r): t = Tab(ex, st); i = st.ghost["i0"]; see(st, t, r); yield from head_post(t, i, r)
    return Spec(f"re:CHT<{T}.*>::ToClusterHead", req, ens, loops=loops, title=f"CHT<{T}>::ToClusterHead", models=FV)
def m_head(ex, st, ins, args):
    if args[0].r is not st.ghost["o"]: raise Unsupported("another table")
    t = Tab(ex, st); i = args[1]; ex.safety(st, "ToClusterHead: slot in range", ult(i, t.n)); r = fresh("head", 64); st.assume(*[f for _, f in head_post(t, i, r)]); see(st, t, i, r); setg(ex, st, h=i, hd=r); return r
m_head.label = "ToClusterHead (contract above)"
# ---- the search shared by get, set and erase
def search(ex, nm="i"):
    def inv(L):
        st = L.st; t = Tab(ex, st); h = st.ghost["h"]; c = L.v(nm); q = quo_of(t, st); s = t.succ(c); st.ghost["cur"] = c; see(st, t, c, s, h)
        yield "in the run of the home", And(ult(h, t.n), t.occ(h), ult(c, t.n), t.full(c), Sel(t.HM, c) == h)
        yield "no slot of the run so far holds the key", Forall(lambda a: (Not(And(holds(t, st, a), ult(Sel(t.CD, a), Sel(t.CD, c)))), [("j", a)]), "i", name="a")
    def dec(L): t = Tab(ex, L.st); return t.n - Sel(t.CD, L.v(nm))
    return Loop("search the run", inv, dec, roles={nm: 64})
def quo_of(t, st): return z3.LShR(HF(st.ghost["k"]), zx(t.bb))
def holds(t, st, a): return And(ult(a, t.n), t.full(a), Sel(t.HM, a) == HF(st.ghost["k"]) & t.mask, t.quo(a) == quo_of(t, st))
def absent(t, st): return Forall(lambda a: (Not(holds(t, st, a)), [("j", a)]), "i", name="a")
def get_spec(s, T):
    def req(ex, st): o = obj(ex, st); k = z3.BitVec("k", 64); out = ex.new_struct("out", 8); st.ghost.update(k=k, h=bv(0), hd=bv(0), out=out); return [Ptr(o), k, Ptr(out)]
    def ens(ex, p, st, r):
        t = Tab(ex, st); home = HF(st.ghost["k"]) & t.mask; see(st, t, home); c = st.ghost.get("cur", home); see(st, t, c); r = r if z3.is_expr(r) else z3.BoolVal(r)
        yield "present: a slot holds the key and is not deleted", imp(r, And(holds(t, st, c), Not(t.dele(c)))); yield "and its value is returned", imp(r, ex.cell(st, st.ghost["out"], 0) == Sel(t.VA, c))
        yield "absent: every slot that holds the key is deleted", Forall(lambda a: (imp(And(Not(r), holds(t, st, a)), t.dele(a)), [("j", a)]), "i", name="a")
    return Spec(f"w_get_{s}", req, ens, loops=lambda ex, blk, k: search(ex), title=f"CHT<{T}>::get", models=M)
def m_reserve(ex, st, ins, args):
    """growth: a new table with the same live entries (bounded); well-formed and not full"""
    if args[0].r is not st.ghost["o"]: raise Unsupported("another table")
    o = st.ghost["o"]
    for off in (8, 24, 32, 40, 168, 184): st.mem[(o.id, off)] = fresh("grown", 64); ex.wrote((o.id, off))
    st.mem[(o.id, 16)] = fresh("grown", 32); ex.wrote((o.id, 16)); setg(ex, st, z=fresh("z", 64), **{g: fresh_arr(g, 64) for g in GH + ("AR", "VA")}); t = Tab(ex, st); st.assume(*[f for _, f in wf(t)]); st.assume(free(t)); st.ghost["v0"] = t; return None
m_reserve.label = "reserve: the table afterwards is well-formed, holds the same entries and is not full (sizes: contract below; ASSUMED, bounded stand-in: replay)"
def erase_spec(s, T):
    def req(ex, st): o = obj(ex, st); k = z3.BitVec("k", 64); st.ghost.update(k=k, h=bv(0), hd=bv(0)); st.ghost["v0"] = Tab(ex, st); return [Ptr(o), k]
    def ens(ex, p, st, r):
        t, u = Tab(ex, st), st.ghost["v0"]; home = HF(st.ghost["k"]) & t.mask; see(st, t, home); c = st.ghost.get("cur", home); see(st, t, c); hit = And(holds(u, st, c), Not(u.dele(c)))
        yield "every slot that holds the key is deleted", Forall(lambda a: (imp(holds(u, st, a), t.dele(a)), [("j", a)]), "i", name="a")
        yield "nothing else changes", Forall(lambda a: imp(ult(a, u.n), Sel(t.AR, a) == If(And(hit, a == c), Sel(u.AR, a) | DEL, Sel(u.AR, a))), "i", name="a"); yield "values stay", t.VA == u.VA
        yield "the size counts live entries", t.size == If(hit, u.size - 1, u.size)
    return Spec(f"w_erase_{s}", req, ens, loops=lambda ex, blk, k: search(ex), title=f"CHT<{T}>::erase", models=M)
# ---- set
def dist(t, i, x): return If(ule(i, x), x - i, x + t.n - i)
def lt(i, a, b): return If(ule(i, a) == ule(i, b), ult(a, b), ule(i, a))   # a before b on the way round from i
def le(i, a, b): return Not(lt(i, b, a))
def set_spec(s, T):
    def req(ex, st): o = obj(ex, st); k, x = z3.BitVecs("k x", 64); t = Tab(ex, st); st.assume(imp(t.used != t.mx, free(t))); st.ghost.update(k=k, x=x, h=bv(0), hd=bv(0)); st.ghost["v0"] = t; return [Ptr(o), k, x]
    def moved(t, u, x): p = t.pred(x); return And(Sel(t.AR, x) == (Sel(u.AR, x) & OCC) | (Sel(u.AR, p) & (u.QM | CONT | DEL)) | SHF, Sel(t.VA, x) == Sel(u.VA, p))
    def same(t, u, x): return And(Sel(t.AR, x) == Sel(u.AR, x), Sel(t.VA, x) == Sel(u.VA, x))
    def loops(ex, blk, k):
        if k == 0: return search(ex)
        def find(L):
            st = L.st; t = Tab(ex, st); j = L.v("j"); i = L.e.v("j"); st.ghost["at"] = i; st.term("m", t.z); st.term("m", t.succ(j)); st.term("m", j)
            yield "position", And(ult(i, t.n), ult(j, t.n), t.full(i), lt(i, j, t.z)); yield "no free slot up to here", Forall(lambda x: imp(And(ult(x, t.n), le(i, x, j)), t.full(x)), "m", name="x")
        def shift(L):
            st = L.st; t, u = Tab(ex, st), st.ghost["v0"]; j = L.v("j"); i = st.ghost["at"]; J = L.e.v("j"); st.ghost["last"] = J; st.term("m", j); st.term("m", t.pred(j))
            yield "position", And(ult(j, t.n), ult(J, t.n), j != i, J != i, le(i, j, J))
            yield "moved by one place", Forall(lambda x: imp(And(ult(x, t.n), lt(i, j, x), le(i, x, J)), moved(t, u, x)), "m", name="x"); yield "the rest is as before", Forall(lambda x: imp(And(ult(x, t.n), Not(And(lt(i, j, x), le(i, x, J)))), same(t, u, x)), "m", name="x")
        return Loop("find a free slot", find, lambda L: Tab(ex, L.st).n - dist(Tab(ex, L.st), L.e.v("j"), L.v("j")), roles={"j": 64}) if k == 1 else Loop("move up by one", shift, lambda L: dist(Tab(ex, L.st), L.st.ghost["at"], L.v("j")), roles={"j": 64})
    def ens(ex, p, st, r):
        t, u = Tab(ex, st), st.ghost["v0"]; g = st.ghost; x = g["x"]; home = HF(g["k"]) & u.mask; q = quo_of(u, st); searched = "cur" in g; c = g["cur"] if searched else home; hit = holds(u, st, c) if searched else z3.BoolVal(False)
        I = u.succ(c) if searched else g["hd"]; J = g.get("last", I); see(st, u, home, c, I); pi = u.pred(I); see(st, u, pi); st.term("m", I); st.term("m", home); st.term("m", J)
        yield "an entry with the key: updated in place", Forall(lambda a: imp(And(hit, ult(a, u.n)), And(Sel(t.AR, a) == If(a == c, Sel(u.AR, a) & ~DEL, Sel(u.AR, a)), Sel(t.VA, a) == If(a == c, x, Sel(u.VA, a)))), "i", name="a")
        yield "counters after an update", imp(hit, And(t.used == u.used, t.size == If(u.dele(c), u.size + 1, u.size)))
        yield "no entry with the key: none anywhere", Forall(lambda a: (imp(Not(hit), Not(holds(u, st, a))), [("j", a)]), "i", name="a")
        yield "counters after an insertion", imp(Not(hit), And(t.used == u.used + 1, t.size == u.size + 1))
        yield "place: behind the home's run, or where its run belongs", imp(Not(hit), And(ult(I, u.n), If(u.occ(home), And(u.full(pi), Sel(u.HM, pi) == home, Not(u.cont(I))), z3.And(*[f for _, f in head_post(u, home, I)]))))
        yield "the free slot that is used", imp(Not(hit), And(ult(J, u.n), Not(u.full(J)))); inn = lambda a: And(a != I, le(I, a, J))
        new = lambda a: (Sel(u.AR, a) & OCC) | If(a == home, OCC, bv(0)) | If(a == I, (q << 4) | If(u.occ(home), CONT | SHF, If(I != home, SHF, bv(0))), If(inn(a), (Sel(u.AR, u.pred(a)) & (u.QM | CONT | DEL)) | SHF, Sel(u.AR, a) & ~OCC))
        yield "new entry, moved entries, everything else as before", Forall(lambda a: imp(And(Not(hit), ult(a, u.n)), And(Sel(t.AR, a) == new(a), Sel(t.VA, a) == If(a == I, x, If(inn(a), Sel(u.VA, u.pred(a)), Sel(u.VA, a))))), "m", name="a")
        yield "every slot moved over is used", Forall(lambda a: imp(And(Not(hit), ult(a, u.n), lt(I, a, J)), u.full(a)), "m", name="a")
    return Spec(f"w_set_{s}", req, ens, loops=loops, title=f"CHT<{T}>::set", models=M)
M = [(re.compile(r"::ToClusterHead\("), m_head), (re.compile(r"CHT<.*>::reserve\("), m_reserve), (re.compile(r"SplitMixHash::hash\("), m_hash)] + FV
# ---- construction and growth sizes
def fvo(ex, st, p): return (p.r, p.o.const())
def fv_new(ex, st, ins, args): w = args[1]; n = args[2] if len(args) > 2 else bv(0); ex.safety(st, "FitVector: width at most a word", ule(w, 64)); setg(ex, st, fvs={**st.ghost.get("fvs", {}), (args[0].r.id, args[0].o.const()): (w, n)}); return None
def fv_move(ex, st, ins, args): f = st.ghost["fvs"]; setg(ex, st, fvs={**f, (args[0].r.id, args[0].o.const()): f[(args[1].r.id, args[1].o.const())]}); return args[0]
def nop(ex, st, ins, args): return None
def m_hasher(ex, st, ins, args): setg(ex, st, hasher=(args[0].r, args[0].o.const(), args[1])); return None
for f, l in ((fv_new, "FitVector(width, size): zeroed (proved under B06)"), (fv_move, "FitVector move assignment"), (nop, "FitVector destructor"), (m_hasher, "SplitMixHash constructor (proved under B13)")): f.label = l
CM = [(re.compile(r"^sim_ds::FitVector::FitVector\(unsigned long"), fv_new), (re.compile(r"^sim_ds::FitVector::operator="), fv_move), (re.compile(r"^sim_ds::FitVector::~FitVector"), nop), (re.compile(r"^sim_ds::SplitMixHash::SplitMixHash\(unsigned"), m_hasher)] + BM
def ctor_spec(s, T, vb):
    def req(ex, st): o = obj(ex, st); kb, b = z3.BitVec("kb", 32), z3.BitVec("b", 64); st.hyps = []; st.assume(ule(1, kb), ule(kb, 64), ult(b, LIM), b != 0, (b & (b - 1)) == 0); st.ghost.update(kb=kb, b=b); return [Ptr(o), kb, b]
    def ens(ex, p, st, r):
        g = st.ghost; o = g["o"]; t = Tab(ex, st); kb = zx(g["kb"]); setg(ex, st, AR=z3.K(B, bv(0))); t = Tab(ex, st); qb = If(ule(kb, zx(t.bb)), bv(0), kb - zx(t.bb)); fv = lambda off, k: g["fvs"].get((o.id, off), (bv(99), bv(0)))[k]; see(st, t)
        for n, f in wf(t): yield "a well-formed empty table: " + n, f
        yield "at least the buckets asked for", ule(g["b"], t.n); yield "entries are zero: remainder and flags fit", And(fv(72, 1) == t.n, fv(72, 0) == qb + 4); yield "the remainder mask covers the remainder", z3.LShR(t.QM, bv(4)) == (bv(1) << qb) - 1
        yield "values", And(fv(120, 1) == t.n, fv(120, 0) == vb); yield "no entries", And(t.size == 0, t.used == 0); yield "a slot stays free", ult(t.mx, t.n); yield "the hash works on the key width", z3.BoolVal(g["hasher"][:2] == (o, 48)) if g["hasher"][1] == 48 else z3.BoolVal(False); yield "key width", And(ex.cell(st, o, 0, 32) == g["kb"], g["hasher"][2] == g["kb"])
    return Spec(f"w_ctor_{s}", req, ens, title=f"CHT<{T}> constructor", models=CM)
def reserve_spec(s, T, load):
    def m_resize(ex, st, ins, args): setg(ex, st, calls=st.ghost.get("calls", []) + [args[1]]); return None
    m_resize.label = "_resize: keeps the live entries (bounded)"
    def req(ex, st): o = obj(ex, st); m = z3.BitVec("m", 64); t = Tab(ex, st); st.assume(ult(m, LIM), ult(t.size, LIM)); st.ghost["m"] = m; return [Ptr(o), m]
    def ens(ex, p, st, r):
        t = Tab(ex, st); m = st.ghost["m"]; c = st.ghost.get("calls", []); yield "grows when asked for more than it has", z3.BoolVal(len(c) == 1) == ult(t.size, m) if len(c) < 2 else z3.BoolVal(False)
        if len(c) == 1: yield "buckets are a power of two", And(c[0] != 0, (c[0] & (c[0] - 1)) == 0, ult(c[0], bv(1 << 44))); yield "room for one more entry when twice the entries are reserved", imp(And(ule(t.size + t.size, m), m != 0), ult(t.size * 100, z3.simplify(c[0] * load) - 99))
    return Spec(f"re:CHT<{T}.*>::reserve", req, ens, title=f"CHT<{T}>::reserve", models=[(re.compile(r"::_resize\("), m_resize)] + BM)
def width_spec():
    def req(ex, st): o = obj(ex, st); w = z3.BitVec("w", 32); st.assume(ule(w, 64), z3.BitVec("size", 64) == 0); st.ghost["w"] = w; return [Ptr(o), w]
    def ens(ex, p, st, r): t = Tab(ex, st); f = st.ghost.get("fvs", {}).get((st.ghost["o"].id, 120), (bv(99), bv(0))); yield "values of the width, one per bucket", And(f[0] == zx(st.ghost["w"]), f[1] == t.n)
    return Spec("w_width_z", req, ens, title="CHT<0>::set_value_width on an empty table", models=CM)
def step_spec(fn, title, f):
    def req(ex, st): o = obj(ex, st); i = z3.BitVec("i0", 64); st.assume(ult(i, z3.BitVec("n", 64))); st.ghost["i0"] = i; return [Ptr(o), i]
    def ens(ex, p, st, r): t = Tab(ex, st); yield title.split("::")[1], r == f(t, st.ghost["i0"]); yield "in range", ult(r, t.n)
    return Spec(fn, req, ens, title=title)
def units():
    K = KEEP_VEC + [r"^sim_ds::FitVector::", r"^sim_ds::Bits(Const)?Reference<", r"ToClusterHead", r"CHT<.*>::(reserve|_resize)\(", r"bit_util::", r"SplitMixHash::"]
    S = []
    for s, T in (("a", "16u, 50u"), ("z", "0u, 75u")):
        S += [head_spec(s, T), get_spec(s, T), erase_spec(s, T), set_spec(s, T), step_spec(f"w_succ_{s}", f"CHT<{T}>::succ", Tab.succ), step_spec(f"w_pred_{s}", f"CHT<{T}>::pred", Tab.pred), ctor_spec(s, T, 16 if s == "a" else 0), reserve_spec(s, T, 50 if s == "a" else 75)]
    S.append(width_spec())
    return [dict(tu="cht.cpp", keep=K, specs=S, models=THROW)]
