"""Exact string matchers.  mis(i) = length of the longest common prefix of the pattern and text[i..); i is an occurrence iff mis(i) = m; Cn(i) = occurrences before i.
A result list is right when it has Cn(n) entries and every occurrence p is its entry number Cn(p).  fm(s) = length of the longest common prefix of key and key[s..)."""
from contracts.common import *
from contracts.vecs import *
REPLAY = "B18.cpp"
LEVEL = "proof"
And, Or, Not, ult, ule, Sel, If = z3.And, z3.Or, z3.Not, z3.ULT, z3.ULE, z3.Select, z3.If
B = z3.BitVecSort(64); one = bv(1); BIG = bv(1 << 45); LIM = bv(1 << 40); neg1 = bv((1 << 64) - 1)
mis = z3.Function("prefix_match", B, B); fm = z3.Function("self_match", B, B); Cn = z3.Function("occurrences_before", B, B)
lt = lambda a, b: a < b
def Occ(g, p): return mis(p) == g["m"]
def K(g, q): return Sel(g["key"], q)
def T(g, q): return Sel(g["txt"], q)
def step(g, k): return And(Cn(k + 1) == Cn(k) + If(Occ(g, k), one, bv(0)), ule(Cn(k), k))
def mono(g, p, i): return imp(And(ult(p, i), ult(i, BIG)), And(ule(Cn(p), Cn(i)), imp(Occ(g, p), ult(Cn(p), Cn(i)))))
def gap(g, a, b, d):
    """no occurrence strictly between a and b unless d is one"""
    return imp(And(ult(a, b), ult(b, BIG)), Or(Cn(a + 1) == Cn(b), And(ult(a, d), ult(d, b), Occ(g, d))))
def base(ex, st, obj, text):
    g = st.ghost; m = z3.BitVec("m", 64); k = ex.new_array(st, "key", 1, m, readonly=True, kinds=("q",)); g.update(m=m, key=ex.arr(st, k)); st.assume(ule(1, m), ult(m, LIM))
    if obj: o = ex.new_struct("matcher", 256); g["o"] = o; st.mem[(o.id, 8)] = m; st.mem[(o.id, 16)] = Ptr(k)
    out = [Ptr(o)] if obj else []
    if text:
        n = z3.BitVec("n", 64); t = ex.new_array(st, "text", 1, n, readonly=True, kinds=("tx",)); g.update(n=n, txt=ex.arr(st, t)); st.assume(ult(n, LIM))
        st.assume(Forall(lambda i: (imp(ult(i, BIG), And(ule(mis(i), m), imp(ule(n, i), mis(i) == 0), imp(ule(i, n), ule(i + mis(i), n)), imp(And(ult(mis(i), m), ult(i + mis(i), n)), K(g, mis(i)) != T(g, i + mis(i))), step(g, i))), [("q", mis(i))]), "start"),
                  Forall(lambda i, q: imp(And(ult(i, BIG), ult(q, mis(i))), K(g, q) == T(g, i + q)), ["start", "q"]), Cn(bv(0)) == 0)
        v = ex.new_struct("result", 24); g["v"] = v; return (k, m), (t, n), out, v
    return (k, m), None, out, None
def selfm(st):
    g = st.ghost; m = g["m"]
    st.assume(Forall(lambda s: (imp(And(ule(1, s), ule(s, m)), And(ule(fm(s), m - s), imp(ult(fm(s), m - s), K(g, fm(s)) != K(g, fm(s) + s)))), [("q", fm(s)), ("q", fm(s) + s)]), "shift"),
              Forall(lambda s, q: imp(And(ule(1, s), ule(s, m), ult(q, fm(s))), K(g, q) == K(g, q + s)), ["shift", "q"]))
def result(ex, st):
    v = st.ghost["v"]; r = st.vecs.get((v.id, 0))
    if r is None: return fresh_arr("none", 64), bv(0)
    return ex.arr(st, r), r.size
def settled(ex, st, b, prev=(), shifts=lambda p: ()):
    """exactly the occurrences before b have been reported, in order"""
    g = st.ghost; M, l = result(ex, st); d = fresh("d"); st.term("start", b)
    for x in shifts(d): st.term("shift", x)
    for a in prev: st.term("start", a); st.term("start", d); st.assume(z3.simplify(step(g, a)), z3.simplify(gap(g, a, b, d)), mono(g, a, b))
    yield "number of reported occurrences", l == Cn(b)
    yield "every occurrence before the window is reported in its place", Forall(lambda p: (imp(And(ult(p, b), Occ(g, p)), Sel(M, Cn(p)) == p), [("start", p), (None, mono(g, p, b)), (None, step(g, p))] + [(None, mono(g, p, a)) for a in prev] + [("shift", x) for x in shifts(p)]), "occ", name="p")
def final(ex, p, st, r):
    g = st.ghost; n = g["n"]; M, l = result(ex, st); a = g.get("last", bv(0)); st.term("start", a); st.term("start", n)
    for x, y in ((a, n), (n, a)): d = fresh("d"); st.term("start", d); st.assume(gap(g, x, y, d), mono(g, x, y), step(g, x))
    yield "as many positions as occurrences", l == Cn(n)
    yield "the c-th occurrence is the c-th position reported", Forall(lambda p: (imp(And(ult(p, n), Occ(g, p)), Sel(M, Cn(p)) == p), [("start", p), (None, mono(g, p, a))]), "occ", name="p")
def nest(ex, blk): return any(blk in b for h, b in ex.loops.items() if h is not blk)
def find(fn, title, setup, loops, text_first=False):
    def req(ex, st):
        (k, m), (t, n), out, v = base(ex, st, True, True); setup(ex, st) if setup else None
        return [Ptr(v)] + out + [Ptr(t), n]
    return Spec(fn, req, final, loops=loops, title=title)
def last(b):
    def f(st, L): st.ghost["last"] = b(L)
    return f
def outer(name, b, inv=lambda L: (), dec=None, roles=None, shifts=None):
    """loop over windows: b(L) is the first start not settled"""
    def I(L):
        st = L.st; g = st.ghost; x = b(L); hd = getattr(L, "h", None); prev = (b(hd),) if hd is not None else ()
        yield from inv(L)
        yield "window start in range", ult(x, BIG)
        yield from settled(L.ex, st, x, prev, (lambda p: [p - prev[0]]) if prev and shifts else (lambda p: ()))
    return Loop(name, I, dec or (lambda L: BIG - b(L)), roles=roles or {"i": 64}, after=last(b))
def none_between(L, a, b, facts, terms=lambda p, e: (), incl=False):
    """no start strictly between a and b is an occurrence: from the listed facts alone, for an arbitrary p = a + e"""
    st = L.st; g = st.ghost; e = fresh("e"); p = z3.simplify(a + e); w = z3.simplify(ult(e, b - a) if incl else And(e != 0, ult(e, b - a)))
    s2 = st.copy()
    for k, t in [("start", p)] + list(terms(p, e)): s2.term(k, t)
    s2.assume(w, Occ(g, p)); by(L.ex, s2, "no occurrence in the skipped stretch", z3.BoolVal(False), [(w, {}), (Occ(g, p), {})] + list(facts(p, e)))
    st.assume(Forall(lambda p: imp(And(ule(a, p) if incl else ult(a, p), ult(p, b)), Not(Occ(g, p))), "start"))      # a < p < b is p = a + e with 0 < e < b - a (lemma)
def enclosing(L, name, role):
    for c in reversed(L.ex.lctx):
        if c.ls.name == name: return c.head.v(role)
    raise Unsupported("no enclosing loop " + name)

# ---- brute force
def simple_loops(ex, blk, k):
    if not nest(ex, blk): return outer("windows", lambda L: L.v("i"), lambda L: [("text is long enough", ule(L.st.ghost["m"], L.st.ghost["n"])), ("window", ule(L.v("i"), L.st.ghost["n"] - L.st.ghost["m"] + 1))])
    def inv(L):
        i = enclosing(L, "windows", "i"); st = L.st; st.term("start", i); st.term("q", L.v("pos")); yield "matched so far", ule(L.v("pos"), mis(i))
    return Loop("compare", inv, lambda L: L.st.ghost["m"] - L.v("pos"), roles={"pos": 64})
# ---- Boyer-Moore
def skip_ok(g, a, upto, off):
    """entry of every byte is at most its distance to the window end, for the pattern positions before upto"""
    m = g["m"]; return Forall(lambda q: imp(ult(q, upto), ule(Sel(a, zx(K(g, q))), m - off - q)), "q", name="q")
def skip_rng(a, lo, hi): return Forall(lambda c: imp(ult(c, bv(256)), And(ule(lo, Sel(a, c)), ule(Sel(a, c), hi))), "byte", name="c")
def bm_new(ex, blk, k):
    def inv(L):
        st = L.st; g = st.ghost; i = L.v("i"); m = g["m"]; _, a, l = ex.vec(st, g["o"], 24); st.term("q", i); st.term("byte", zx(K(g, i)))
        yield "range", And(ule(i, m - 1), l == 256); yield "entries between 1 and m", skip_rng(a, one, m); yield "entries bound the distance", skip_ok(g, a, i, one)
    return Loop("fill the skip table", inv, lambda L: L.st.ghost["m"] - 1 - L.v("i"), roles={"i": 64})
def bm_setup(ex, st):
    g = st.ghost; o = g["o"]; m = g["m"]; ex.make_vec(st, o, 24, "skip", 8, bv(256), kinds=("byte",)); a = ex.vec(st, o, 24)[1]; st.assume(skip_rng(a, one, m), skip_ok(g, a, m - 1, one))
def bm_find(ex, blk, k):
    if not nest(ex, blk):
        def inv(L):
            i = L.v("i"); g = L.st.ghost; hd = getattr(L, "h", None)
            if hd is not None:        # an occurrence strictly inside the skipped stretch has the window's last byte at its own position
                h = hd.v("i"); w = h + 1 - g["m"]; L.st.term("byte", zx(T(g, h))); sk = Sel(ex.vec(L.st, g["o"], 24)[1], zx(T(g, h)))
                none_between(L, w, i + 1 - g["m"], lambda p, e: [And(ule(one, g["m"]), ult(g["m"], LIM)), i == h + sk, And(ule(one, sk), ule(sk, g["m"])), imp(And(e != 0, ult(e, g["m"])), ule(sk, e))], lambda p, e: [("q", g["m"] - 1 - e)])
            yield "window end", And(ule(g["m"] - 1, i), ult(i, LIM << 1))
        return outer2("windows", lambda L: L.v("i") + 1 - L.st.ghost["m"], inv, {"i": 64}, lambda L: BIG - L.v("i"))
    def inv(L):
        i = enclosing(L, "windows", "i"); g = L.st.ghost; k = L.v("k"); w = i + 1 - g["m"]; L.st.term("start", w); L.st.term("q", k)
        yield "compared from the back", And(Or(k == neg1, ult(k, g["m"])), L.v("pos") == w + k); yield "the window matches behind the position", Or(mis(w) == g["m"], lt(mis(w), k + 1))
    return Loop("compare backwards", inv, lambda L: L.v("k") + 1, roles={"k": 64, "pos": 64})
def outer2(name, b, inv, roles, dec): 
    """as outer, for window starts that may step beyond the end of the text"""
    return outer(name, b, inv, dec, roles)
VL = VecLib(sizes={"std::pair<long long, char>": (16, [(0, 64), (8, 8)])}, name=lambda p: {"matcher": {24: "table"}}.get(p.r.name, {}).get(p.o.const()), kinds=lambda p: {"matcher": {24: ("byte", "pos", "place"), 48: ("byte",), 72: ("place",)}}.get(p.r.name, {}).get(p.o.const()))
def new(fn, title, ens, loops):
    def req(ex, st):
        (k, m), _, out, _ = base(ex, st, True, False); st.ghost["kr"] = k; return out + [Ptr(k), m]
    return Spec(fn, req, ens, loops=loops, title=title)
def view(ex, st):
    g = st.ghost; o = g["o"]; p = st.mem[(o.id, 16)]; yield "views the pattern", And(st.mem[(o.id, 8)] == g["m"], z3.BoolVal(p.r is not None and p.r.id == g["kr"].id and p.o.const() == 0))
def bm_ens(ex, p, st, r):
    g = st.ghost; _, a, l = ex.vec(st, g["o"], 24); yield from view(ex, st); yield "entries between 1 and m", And(l == 256), "bv"; yield "range", skip_rng(a, one, g["m"]); yield "entries bound the distance", skip_ok(g, a, g["m"] - 1, one)
def units():
    Kp = KEEP_VEC + [r"^void std::sort<", r"FactorOracle", r"^sim_ds::pattern_matching::Sunday(QS)?::Sunday(QS)?\([^)]*\)$", r"SundayMS::SundayMS.*'lambda'.*::operator\(\)\("]
    S2 = [find("w_kmp_find", "Kmp::find_all", kmp_setup, kmp_find), new_kmp(), find("w_qs_find", "SundayQS::find_all", qs_setup, sunday_find(False)), find("w_ms_find", "SundayMS::find_all", ms_setup, sunday_find(True)), sunday_new(), qs_new(), ms_shift(), ms_new(), find("w_bom_find", "Bom::find_all", bom_setup, bom_find), find("w_turbo_find", "TurboBom::find_all", turbo_setup, turbo_find)]
    S = [find("w_simple_find", "Simple::find_all", None, simple_loops), new("w_bm_new", "Bm::Bm", bm_ens, bm_new), find("w_bm_find", "Bm::find_all", bm_setup, bm_find)]
    return [dict(tu="patmatch.cpp", keep=Kp, specs=S + S2, models=[(re.compile(r"^void std::sort<"), m_sort), (re.compile(r"FactorOracle::image\("), m_image)] + VL.models() + THROW),
            dict(tu="patmatch.cpp", keep=Kp + [r"Kmp::Kmp\("], specs=[oracle_new("w_bom_new", "Bom::Bom", False), oracle_new("w_turbo_new", "TurboBom::TurboBom", True)], models=[(re.compile(r"FactorOracle::FactorOracle"), m_oracle_new), (re.compile(r"Kmp::Kmp\("), m_kmp_new)] + VL.models() + THROW),
            dict(tu="patmatch.cpp", keep=KEEP_VEC + [r"FactorOracle", r"::find_all\(", r"^sim_ds::pattern_matching::\w+::~?\w+\("], specs=[whole("w_" + a, c) for a, c in WHOLE], models=THROW)]
WHOLE = [("simple", "Simple"), ("kmp", "Kmp"), ("bm", "Bm"), ("bom", "Bom"), ("turbo", "TurboBom"), ("qs", "SundayQS"), ("ms", "SundayMS")]
NOTE = "Every constructor and find_all of the seven matchers is proved for all texts and nonempty patterns: window loops keep 'exactly the occurrences before the window are reported, in order', tables keep the contracts find_all relies on (skip tables, failure links, shift tables); the PatternMatch functions are proved to chain them. BOM and Turbo-BOM rely on the factor-oracle contract stated in B19."
ASSUMPTIONS = ["nonempty pattern; text and pattern shorter than 2^40", "the count-of-occurrences function is defined by its recursion over positions; its monotonicity and 'equal counts or an occurrence between' are lemmas with discharged induction steps", "std::sort permutes the range it is given (nothing is assumed about the order: the proof of the Sunday matchers is for every order)", "termination of the outer window loop of Turbo-BOM is not proved", "the float window-size factor of Turbo-BOM is an arbitrary value",
    "factor-oracle contract: from the state of factor w[e..x) the character w[x] leads to the state of w[e..x+1), edges lead forward, an edge to the next state carries that state's character"]
BOUNDED = ["all seven matchers on sampled texts and patterns (replay harness, sanitizers on)"]
# ---- Knuth-Morris-Pratt
def conflict(g, pos, s): return Or(ult(fm(s), pos - s), And(ult(pos, g["m"]), K(g, pos - s) == K(g, pos)))
def link_ok(g, a, pos):
    """next[pos]: a shorter prefix that is a border (or -1), and no shift in between can match"""
    x = Sel(a, pos); return [And(lt(x, pos), ule(x + 1, pos), imp(x != neg1, ule(x, fm(pos - x))), imp(pos == g["m"], x != neg1))]
def table(g, a, upto, more=lambda p, s: []):
    return [Forall(lambda p: (imp(ule(p, upto), And(*link_ok(g, a, p))), [("shift", p - Sel(a, p))]), "pos", name="p"),
            Forall(lambda p, s: (imp(And(ule(p, upto), ule(one, s), ult(s, p - Sel(a, p))), conflict(g, p, s)), [("q", p - s), ("q", p), ("pos", p), ("shift", s)] + more(p, s)), ["pos", "shift2"], name="y")]
def kmp_setup(ex, st, off=0):
    g = st.ghost; o = g["o"]; m = g["m"]; st.mem[(o.id, off + 8)] = m; st.mem[(o.id, off + 16)] = st.mem[(o.id, 16)]
    ex.make_vec(st, o, off + 24, "next", 8, m + 1, kinds=("pos",)); a = ex.vec(st, o, off + 24)[1]; g["a"] = a
    st.assume(*table(g, a, m)); selfm(st)
def jump(L, a, pos, nx, bb):
    """window a with pos matched characters moves by pos - nx along a failure link"""
    st = L.st; g = st.ghost; m = g["m"]; sh = z3.simplify(pos - nx); b = z3.simplify(a + sh)
    for k, t in (("start", a), ("start", b), ("shift", sh), ("pos", pos), ("q", pos), ("q", mis(b)), ("q", mis(b) + sh)): st.term(k, t)
    def facts(p, e):
        f = fm(e); c = ult(f, pos - e); k = ult(pos, m)
        return [conflict(g, pos, e), imp(c, K(g, f) != K(g, f + e)), imp(c, K(g, f) == T(g, p + f)), imp(c, K(g, f + e) == T(g, p + f)), imp(k, K(g, pos - e) == T(g, a + pos)), imp(k, T(g, a + pos) != K(g, pos))]
    mu = mis(b); w = ult(mu, nx); g["pfx"] = [imp(And(nx != neg1, w), x) for x in (ult(b + mu, g["n"]), K(g, mu) == K(g, mu + sh), K(g, mu + sh) == T(g, b + mu), imp(ult(b + mu, g["n"]), K(g, mu) != T(g, b + mu)))] + [b == bb]
    none_between(L, a, b, facts, lambda p, e: [("shift", e), ("shift2", e), ("q", fm(e)), ("q", fm(e) + e), ("q", pos - e)])
def kmp_find(ex, blk, k):
    def win(L): g = L.st.ghost; return L.v("i") - L.v("pos")
    if not nest(ex, blk):
        def I(L):
            st = L.st; g = st.ghost; i, pos = L.v("i"), L.v("pos"); b = i - pos; hd = getattr(L, "h", None); prev = ()
            if hd is not None:
                a, ps = g["bi"], g["pi"]; prev = (a,); full = ps + 1 == g["m"]
                if L.ex.quick(st, full): jump(L, a, g["m"], pos, b)
            st.term("q", pos); st.term("start", b)
            yield "position in the text", ule(i, g["n"]); yield "matched prefix", And(ult(pos, g["m"]), ule(pos, i)); yield "window start in range", ult(b, BIG)
            yield ("the matched prefix is in the text", ule(pos, mis(b))) + ((None, g["pfx"] + [pos != neg1]) if prev and L.ex.quick(st, full) else ())
            yield from settled(L.ex, st, b, prev)
        return Loop("scan", I, lambda L: L.st.ghost["n"] - L.v("i"), roles={"i": 64, "pos": 64}, after=last(win))
    def I(L):
        st = L.st; g = st.ghost; i = enclosing(L, "scan", "i"); pos = L.v("pos"); b = i - pos; st.term("q", pos); st.term("start", b); hd = getattr(L, "h", None)
        if hd is not None: jump(L, i - hd.v("pos"), hd.v("pos"), pos, b)
        yield "matched prefix or -1", And(ult(pos + 1, g["m"] + 1), ule(pos + 1, i + 1))
        yield ("the matched prefix is in the text", imp(pos != neg1, ule(pos, mis(b)))) + ((None, g["pfx"]) if hd is not None else ())
        yield from settled(L.ex, st, b, (i - hd.v("pos"),) if hd is not None else ())
    def after(st, L): i = enclosing(L, "scan", "i"); st.ghost["pi"] = L.v("pos"); st.ghost["bi"] = z3.simplify(i - L.v("pos"))
    return Loop("follow the failure links", I, lambda L: L.v("pos") + 1, roles={"pos": 64}, after=after)

def kmp_new(ex, blk, k):
    def weak(g, pos, lim, more=lambda e: []): return Forall(lambda e: (imp(And(ule(one, e), ult(e, lim)), ult(fm(e), pos - e)), [("shift", e), ("shift2", e)] + more(e)), "shiftw", name="e")
    def link(L, s, n, nx, pos):
        """the border n at shift s is shortened to nx: shifts s + d with 0 < d < n - nx are no borders; pos: position whose character has to follow (None: the one at n + s, known to differ)"""
        st = L.st; g = st.ghost; t = z3.simplify(n - nx); u = z3.simplify(s + t); d = fresh("d"); e = z3.simplify(s + d); f = fm(d); F = fm(e); s2 = st.copy()
        for x in (s, t, u): st.term("shift", x); s2.term("shift", x)
        for q in (n, fm(u), fm(u) + t): st.term("q", q)
        for q in (n, z3.simplify(n + s), f, f + d, n - d, F): s2.term("q", q)
        for x in (d, e): s2.term("shift", x)
        s2.term("shift2", d); s2.term("pos", n); st.term("pos", n); w = And(d != 0, ult(d, t)); s2.assume(w); c = ult(f, n - d)
        facts = [conflict(g, n, d), ult(d, g["m"]), ult(n, g["m"]), ule(d, n), imp(c, K(g, f) != K(g, f + d)), imp(c, K(g, f + d) == K(g, f + d + s)), imp(And(c, ult(f, F), ule(one, e), ule(e, g["m"])), K(g, f) == K(g, f + e)), And(ule(one, e), ule(e, g["m"]))]
        if pos is None: facts += [imp(And(ult(n - d, F), ule(one, e), ule(e, g["m"])), K(g, n - d) == K(g, n + s)), K(g, n) != K(g, n + s)]; goal = ule(F, n - d); res = lambda e: ule(fm(e), n + s - e)
        else: facts += [K(g, n) == K(g, n + s)]; goal = Or(ult(F, n - d), K(g, n - d) == K(g, n + s)); res = lambda e: Or(ult(fm(e), n + s - e), K(g, n + s - e) == K(g, n + s))
        mu = fm(u); v = And(nx != neg1, ult(mu, nx)); s3 = st.copy(); s3.assume(v); b = [ule(u, g["m"]), ule(one, u), ult(mu, g["m"] - u), K(g, mu) != K(g, mu + u), K(g, mu) == K(g, mu + t), K(g, mu + t) == K(g, mu + u)]
        L.ex.oblige_item(s3, "", ("the shortened border is a border", z3.BoolVal(False), None, [z3.simplify(x) for x in b])); st.assume(imp(nx != neg1, ule(nx, fm(u))))
        def only(**kv):
            s5 = s2.copy()
            for k in ("shift", "shift2", "q", "pos", "shiftw"): s5.terms.pop(k, None)
            s5.term("pos", n)
            for k, l in kv.items(): [s5.term(k, z3.simplify(x)) for x in l]
            return s5
        pick = {0: only(shift2=[d]), 4: only(shift=[d], q=[f]), 5: only(shift=[s], q=[f + d]), 6: only(shift=[e], q=[f])}
        if pos is None: pick[8] = only(shift=[e], q=[n - d])
        for k, f_ in enumerate(facts): L.ex.oblige(pick.get(k, s2), f"shifts skipped by the failure link are no borders: step {k}", z3.simplify(f_))
        s6 = st.copy(); s6.hyps = [w] + [z3.simplify(x) for x in facts]; L.ex.oblige(s6, "shifts skipped by the failure link are no borders: conclusion", goal)
        st.assume(Forall(lambda e: imp(And(ult(s, e), ult(e, u)), res(e)), "shiftw"))
    def inner(L):
        st = L.st; g = st.ghost; i = enclosing(L, "failure table", "i"); n = L.v("n"); s = i - n; hd = getattr(L, "h", None); more = lambda e: []
        if hd is not None: h = hd.v("n"); link(L, i - h, h, n, None)
        st.term("shift", s); st.term("q", n); st.term("shiftw", s)
        yield "candidate", And(lt(n, i), ule(n + 1, i), Or(n == neg1, ult(n, i)))
        yield "border of the prefix", imp(n != neg1, ule(n, fm(s)))
        yield "no longer border of the next prefix", weak(g, i + 1, s, more)
    def after(st, L): st.ghost["nx"] = L.v("n")
    if nest(ex, blk): return Loop("shorten the border", inner, lambda L: L.v("n") + 1, roles={"n": 64}, after=after)
    def outer_(L):
        st = L.st; g = st.ghost; i, n = L.v("i"), L.v("n"); m = g["m"]; hd = getattr(L, "h", None); _, a, l = ex.vec(st, g["o"], 24); s = i - n; more = lambda p, e: []
        if hd is not None:
            x = g["nx"]; more = lambda p, e: [("shiftw", e)]; y = z3.simplify(x + 1); s0 = z3.simplify(hd.v("i") - x)
            if L.ex.quick(st, And(ult(i, m), K(g, i) == K(g, y))): link(L, s0, y, Sel(a, y), i)
            st.term("q", x); st.term("q", i)
        st.term("shift", s); st.term("q", n); st.term("pos", i); st.term("pos", n)
        yield "range", And(ule(i, m), l == m + 1, lt(n, i), ule(n + 1, i), imp(i != 0, n != neg1))
        yield "border of the prefix", imp(n != neg1, ule(n, fm(s)))
        yield "no longer border", weak(g, i, s, (lambda e: [("shiftw", e)]))
        st.assume(And(ule(i, m), lt(n, i), ule(n + 1, i), imp(i != 0, n != neg1)), imp(n != neg1, ule(n, fm(s))))      # the three facts just obliged
        if hd is not None:
            st.assume(weak(g, i, s)); x = Sel(a, i); ne = lambda lem: Forall(lambda e: (imp(And(ule(one, e), ult(e, i - x)), conflict(g, i, e)), lem(e)), "shift2", name="e")
            yield "no shift skipped by the new failure link matches", ne(lambda e: [("q", i - e), ("shiftw", e), ("shift2", e)])
            st.assume(ne(lambda e: [])); more = lambda p, e: [("shift2", e)]
        for k, t in enumerate(table(g, a, i, more)): yield ("failure links", "no shift skipped by a failure link matches")[k], t
    return Loop("failure table", outer_, lambda L: L.st.ghost["m"] - L.v("i"), roles={"i": 64, "n": 64})
def kmp_ens(ex, p, st, r):
    g = st.ghost; _, a, l = ex.vec(st, g["o"], 24); yield from view(ex, st); yield "one entry per prefix", l == g["m"] + 1
    for k, t in enumerate(table(g, a, g["m"])): yield ("failure links", "no shift skipped by a failure link matches")[k], t
def new_kmp():
    s = new("w_kmp_new", "Kmp::Kmp", kmp_ens, kmp_new); r0 = s.requires
    def req(ex, st): a = r0(ex, st); selfm(st); return a
    s.requires = req; return s

def lemmas():
    a, b, p, e, c, cb, d = z3.BitVecs("a b p e c cb d", 64); o = z3.Bool("o")
    return [("strictly between, as a distance", [ult(a, p), ult(p, b)], And(p - a != 0, ult(p - a, b - a), a + (p - a) == p)),
            ("counts are monotone (step)", [ule(c, cb), ult(cb, BIG)], ule(c, cb + If(o, one, bv(0)))), ("counts are at most the position (step)", [ule(c, p), ult(p, BIG)], ule(c + If(o, one, bv(0)), p + 1)),
            ("no occurrence in a gap leaves the count (step)", [c == cb, Not(o)], c == cb + If(o, one, bv(0)))]
# ---- Sunday: the pattern positions in an arbitrary order
inv_ = z3.Function("place_of", B, B); fq = z3.Function("first_bad_place", B, B)
def pat(ex, st, o, off=24): 
    r = st.vecs[(o.id, off)]; return ex.arr(st, r, 0, 64), ex.arr(st, r, 8, 8), r.size
def perm(g, F, S):
    m = g["m"]; return [Forall(lambda j: (imp(ult(j, m), And(ult(Sel(F, j), m), Sel(S, j) == K(g, Sel(F, j)), inv_(Sel(F, j)) == j)), [("q", Sel(F, j))]), "place"), Forall(lambda q: (imp(ult(q, m), And(ult(inv_(q), m), Sel(F, inv_(q)) == q)), [("place", inv_(q))]), "qi")]
def give_pat(ex, st, o):
    r = Region("order", "array", stride=16, size=st.ghost["m"], kinds=("place",)); st.mem[(r.id, 0, 64)] = fresh_arr("order", 64); st.mem[(r.id, 8, 8)] = fresh_arr("order.c", 8); ex.bind_vec(st, o, 24, r, st.ghost["m"])
    F, S, _ = pat(ex, st, o); st.ghost.update(F=F, S=S); st.assume(*perm(st.ghost, F, S))
def td1_ok(g, a): return [skip_rng(a, one, g["m"] + 1), skip_ok(g, a, g["m"], bv(0))]
def bad(g, j, e): f = Sel(g["F"], j); return And(ult(j, g["m"]), ule(e, f), K(g, f) != K(g, f - e))
def fq_def(g):
    return [Forall(lambda e: (imp(And(ule(one, e), ule(e, g["m"])), And(ule(fq(e), g["m"]), imp(ult(fq(e), g["m"]), bad(g, fq(e), e)))), [("place", fq(e))]), "shift"), Forall(lambda j, e: imp(And(ule(one, e), ule(e, g["m"]), ult(j, fq(e))), Not(bad(g, j, e))), ["place", "shift"])]
def conf2(g, p, e): f = Sel(g["F"], p); return Or(ult(fq(e), p), And(ult(p, g["m"]), ule(e, f), K(g, f) == K(g, f - e)))
def td2_rng(g, b, upto): return Forall(lambda p: imp(ult(p, upto), And(ule(one, Sel(b, p)), ule(Sel(b, p), g["m"]))), "place", name="p")
def td2_ok(g, b, upto, conf): return Forall(lambda p, e: (imp(And(ult(p, upto), ule(one, e), ult(e, Sel(b, p))), conf(p, e)), [("place", p), ("shift", e)]), ["place", "shift2"], name="y")
def qs_setup(ex, st):
    g = st.ghost; o = g["o"]; give_pat(ex, st, o); ex.make_vec(st, o, 48, "td1", 8, bv(256), kinds=("byte",)); st.assume(*td1_ok(g, ex.vec(st, o, 48)[1]))
def ms_setup(ex, st):
    qs_setup(ex, st); g = st.ghost; o = g["o"]; ex.make_vec(st, o, 72, "td2", 8, g["m"] + 1, kinds=("place",)); b = ex.vec(st, o, 72)[1]; st.assume(td2_rng(g, b, g["m"] + 1), td2_ok(g, b, g["m"] + 1, lambda p, e: conf2(g, p, e)), *fq_def(g))
def sunday_find(ms):
    def loops(ex, blk, k):
        if not nest(ex, blk):
            def I(L):
                st = L.st; g = st.ghost; i = L.v("i"); hd = getattr(L, "h", None); prev = (); m, n, F = g["m"], g["n"], g["F"]
                if hd is not None:
                    a = hd.v("i"); prev = (a,); pos = g["pi"]; c = zx(T(g, a + m)); st.term("byte", c); t1 = Sel(ex.vec(st, g["o"], 48)[1], c); st.term("qi", mis(a)); st.term("place", pos)
                    def facts(p, e):
                        t = [imp(ult(e - 1, m), ule(t1, e)), And(ule(one, t1), ule(t1, m + 1))]
                        if ms:
                            t2 = Sel(ex.vec(st, g["o"], 72)[1], pos); q = fq(e); f = Sel(F, q); fp = Sel(F, pos); c1 = And(ult(e, t2), ult(q, pos)); c2 = And(ult(e, t2), ult(pos, m), ule(e, fp))
                            t += [ule(t2, m), imp(And(ult(e, t2)), conf2(g, pos, e)), imp(c1, And(ule(e, f), K(g, f) != K(g, f - e))), imp(c1, K(g, f) == T(g, a + f)), imp(c1, K(g, f - e) == T(g, a + f)), imp(c2, K(g, fp - e) == T(g, a + fp)), imp(c2, K(g, fp) != T(g, a + fp))]
                        return t
                    b = z3.simplify(i)
                    none_between(L, a, b, facts, lambda p, e: [("q", m - e)] + ([("shift", e), ("shift2", e), ("q", Sel(F, fq(e))), ("q", Sel(F, fq(e)) - e), ("q", Sel(F, pos) - e)] if ms else []))
                yield "window", And(ule(m, n), ule(i, n + 1)); yield from settled(ex, st, i, prev)
            return Loop("windows", I, lambda L: BIG - L.v("i"), roles={"i": 64}, after=last(lambda L: L.v("i")))
        def J(L):
            st = L.st; g = st.ghost; i = enclosing(L, "windows", "i"); pos = L.v("pos"); F = g["F"]; st.term("place", pos); st.term("start", i); st.term("qi", mis(i))
            yield "compared places", And(ule(pos, g["m"]), L.ix("order") == pos)
            yield "the compared places match", Forall(lambda j: (imp(ult(j, pos), K(g, Sel(F, j)) == T(g, i + Sel(F, j))), [("place", j)]), "place", name="j")
        def after(st, L): st.ghost["pi"] = L.v("pos")
        return Loop("compare in the chosen order", J, lambda L: L.st.ghost["m"] - L.v("pos"), roles={"pos": 64}, after=after)
    return loops
def sunday_this(ex, st, extra=()):
    (k, m), _, out, _ = base(ex, st, True, False); st.ghost["kr"] = k; return k, m, out
def view_args(ex, st, args):
    """the callee's pattern argument is the caller's, the object its own"""
    g = st.ghost; ex.safety(st, "constructor gets this object and the pattern", And(z3.BoolVal(args[0].r is g["o"] and args[0].o.const() == 0 and args[2].r is g["kr"] and args[2].o.const() == 0), args[1] == g["m"]))
    o = g["o"]; st.mem[(o.id, 8)] = g["m"]; st.mem[(o.id, 16)] = Ptr(g["kr"])
def m_sunday(ex, st, ins, args): view_args(ex, st, args); give_pat(ex, st, st.ghost["o"]); return None
m_sunday.label = "Sunday::Sunday (contract proved in this check)"
def m_qs(ex, st, ins, args):
    m_sunday(ex, st, ins, args); g = st.ghost; o = g["o"]; ex.make_vec(st, o, 48, "td1", 8, bv(256), kinds=("byte",)); st.assume(*td1_ok(g, ex.vec(st, o, 48)[1])); return None
m_qs.label = "SundayQS::SundayQS (contract proved in this check)"
def m_sort(ex, st, ins, args):
    b, e = args[0], args[1]; ex.safety(st, "sorted range is a whole vector", And(z3.BoolVal(b.r is e.r and b.r.stride == 16 and b.o.const() == 0), ex.idx_of(st, e) == b.r.size)); r = b.r
    F, S = ex.arr(st, r, 0, 64), ex.arr(st, r, 8, 8); st.ghost["sorted"] = (F, S); F2, S2 = fresh_arr("sorted", 64), fresh_arr("sorted.c", 8); st.ghost["sort"] = (F2, S2)
    perm_, back = z3.Function("sort_from", B, B), z3.Function("sort_to", B, B); n = b.r.size
    st.assume(Forall(lambda j: (imp(ult(j, n), And(ult(perm_(j), n), back(perm_(j)) == j, Sel(F2, j) == Sel(F, perm_(j)), Sel(S2, j) == Sel(S, perm_(j)))), [("place", perm_(j))]), "place"), Forall(lambda j: (imp(ult(j, n), And(ult(back(j), n), perm_(back(j)) == j)), [("place", back(j))]), "place0"))
    st.mem[(r.id, 0, 64)] = F2; st.mem[(r.id, 8, 8)] = S2; ex.wrote((r.id, 0, 64)); ex.wrote((r.id, 8, 8)); return None
m_sort.label = "std::sort permutes the range (trusted library contract)"
def sunday_new():
    def req(ex, st): k, m, out = sunday_this(ex, st); return out + [m, Ptr(k)]
    def loops(ex, blk, k):
        if nest(ex, blk): return Loop("previous equal character", lambda L: [("position", And(ult(L.v("j") + 1, enclosing(L, "gaps", "i") + 1)))], lambda L: L.v("j") + 1, roles={"j": 64})
        if any(h in ex.loops[blk] for h in ex.loops if h is not blk): return Loop("gaps", lambda L: [("position", ule(L.v("i"), L.st.ghost["m"]))], lambda L: L.st.ghost["m"] - L.v("i"), roles={"i": 64})
        def inv(L):
            st = L.st; g = st.ghost; o = g["o"]; i = L.v("i"); st.term("place", i)
            if (o.id, 24) not in st.vecs or ex.quick(st, st.vecs[(o.id, 24)].size == 0): yield "empty", And(i == 0, st.vecs[(o.id, 24)].size == 0 if (o.id, 24) in st.vecs else True); return
            F, S, l = pat(ex, st, o); yield "one entry per character", And(l == i, ule(i, g["m"]))
            yield "entries are the characters in order", Forall(lambda j: imp(ult(j, i), And(Sel(F, j) == j, Sel(S, j) == K(g, j))), "place", name="j")
        return Loop("collect", inv, lambda L: L.st.ghost["m"] - L.v("i"), roles={"i": 64})
    def ens(ex, p, st, r):
        g = st.ghost; m = g["m"]; F, S, l = pat(ex, st, g["o"]); yield from view(ex, st); yield "one entry per character", l == m; back = z3.Function("sort_to", B, B)
        yield "every entry is a pattern position with its character", Forall(lambda j: (imp(ult(j, m), And(ult(Sel(F, j), m), Sel(S, j) == K(g, Sel(F, j)), back(Sel(F, j)) == j)), [("place", j), ("place0", Sel(F, j))]), "place1", name="j")
        yield "every pattern position has an entry", Forall(lambda q: (imp(ult(q, m), And(ult(back(q), m), Sel(F, back(q)) == q)), [("place0", q), ("place", back(q))]), "place1", name="q")
    return Spec(r"re:^sim_ds::pattern_matching::Sunday::Sunday\([^)]*\)$", req, ens, loops=loops, title="Sunday::Sunday")
def qs_new():
    def req(ex, st): k, m, out = sunday_this(ex, st); return out + [m, Ptr(k)]
    def loops(ex, blk, k):
        def inv(L):
            st = L.st; g = st.ghost; i = L.v("i"); m = g["m"]; _, a, l = ex.vec(st, g["o"], 48); st.term("q", i); st.term("byte", zx(K(g, i)))
            yield "range", And(ule(i, m), l == 256); yield "entries between 1 and m + 1", skip_rng(a, one, m + 1); yield "entries bound the distance", skip_ok(g, a, i, bv(0))
        return Loop("fill the shift table", inv, lambda L: L.st.ghost["m"] - L.v("i"), roles={"i": 64})
    def ens(ex, p, st, r):
        g = st.ghost; _, a, l = ex.vec(st, g["o"], 48); yield from view(ex, st); yield "one entry per byte", l == 256; yield "entries between 1 and m + 1", td1_ok(g, a)[0]; yield "entries bound the distance", td1_ok(g, a)[1]
    return Spec(r"re:SundayQS::SundayQS\(", req, ens, loops=loops, title="SundayQS::SundayQS", models=[(re.compile(r"Sunday::Sunday\("), m_sunday)])
def closure(ex, st):
    """values captured by the shift search: the pattern length (by reference) and the object"""
    g = st.ghost; c = ex.new_struct("closure", 16); v = ex.new_struct("length", 8); st.mem[(v.id, 0)] = g["m"]; st.mem[(c.id, 0)] = Ptr(v); st.mem[(c.id, 8)] = Ptr(g["o"]); return c
def ms_shift():
    def req(ex, st):
        k, m, out = sunday_this(ex, st); g = st.ghost; give_pat(ex, st, g["o"]); st.assume(*fq_def(g)); pos, l = z3.BitVecs("pos l", 64); st.assume(ule(pos, m), ule(one, l), ule(l, m)); g.update(pos=pos, l=l); return [Ptr(closure(ex, st)), pos, l]
    def loops(ex, blk, k):
        if nest(ex, blk): return Loop("compare", lambda L: [("place", ule(L.v("ppos"), L.st.ghost["pos"]))], lambda L: L.v("ppos") + 1, roles={"ppos": 64})
        def inv(L):
            st = L.st; g = st.ghost; s = L.v("lshift"); st.term("shift", s); hd = getattr(L, "h", None)
            yield "range", And(ule(g["l"], s), ule(s, g["m"]))
            yield "skipped shifts contradict an earlier place", Forall(lambda e: (imp(And(ule(g["l"], e), ult(e, s)), ult(fq(e), g["pos"])), [("shift", e)]), "shift2", name="e")
        return Loop("shifts", inv, lambda L: L.st.ghost["m"] - L.v("lshift"), roles={"lshift": 64})
    def ens(ex, p, st, r):
        g = st.ghost; yield "range", And(ule(g["l"], r), ule(r, g["m"])); yield "skipped shifts contradict an earlier place", Forall(lambda e: (imp(And(ule(g["l"], e), ult(e, r)), ult(fq(e), g["pos"])), [("shift2", e)]), "shift2", name="e")
    return Spec(r"re:SundayMS::SundayMS.*'lambda'.*::operator\(\)\(", req, ens, loops=loops, title="SundayMS shift search")
def m_shift(ex, st, ins, args):
    g = st.ghost; c, pos, l = args; m = g["m"]; a = st.mem.get((c.r.id, 0)); b = st.mem.get((c.r.id, 8))
    ok = isinstance(a, Ptr) and isinstance(b, Ptr) and b.r is g["o"]; ex.safety(st, "shift search: captured values", And(z3.BoolVal(bool(ok)), ex.cell(st, a.r, a.o.const(), 64) == m if ok else False))
    ex.safety(st, "shift search: arguments in range", And(ule(pos, m), ule(one, l), ule(l, m))); r = fresh("shift")
    st.assume(ule(l, r), ule(r, m), Forall(lambda e: imp(And(ule(l, e), ult(e, r)), ult(fq(e), pos)), "shift2")); return r
m_shift.label = "shift search (contract proved in this check)"
def ms_new():
    def req(ex, st): k, m, out = sunday_this(ex, st); return out + [Ptr(k), m]
    def T2(ex, st): return ex.vec(st, st.ghost["o"], 72)[1:]
    weak = lambda p, e: ult(fq(e), p)
    def loops(ex, blk, k):
        if nest(ex, blk):
            def J(L):
                st = L.st; g = st.ghost; pos = enclosing(L, "second pass", "pos"); s = L.v("lshift"); st.term("place", pos); b, l = T2(ex, st)
                yield "range", And(ule(one, s), ule(s, g["m"])); yield "skipped shifts contradict", Forall(lambda e: (imp(And(ule(one, e), ult(e, s)), conf2(g, pos, e)), [("shift", e), ("shift2", e)]), "shift2", name="e")
            return Loop("extend the shift", J, lambda L: L.st.ghost["m"] - L.v("lshift"), roles={"lshift": 64})
        second = any(h in ex.loops[blk] for h in ex.loops if h is not blk)
        def I(L):
            st = L.st; g = st.ghost; pos = L.v("pos"); m = g["m"]; b, l = T2(ex, st); st.term("place", pos)
            if not st.ghost.get("defs"): st.assume(*fq_def(g)); st.ghost["defs"] = True
            if not second:
                st.term("place", pos - 1); yield "position", And(ule(one, pos), ule(pos, m + 1), l == m + 1); yield "shifts in range", td2_rng(g, b, pos); yield "skipped shifts contradict an earlier place", td2_ok(g, b, pos, weak)
            else:
                yield "position", And(ule(pos, m), l == m + 1); yield "shifts in range", td2_rng(g, b, m + 1)
                yield "skipped shifts contradict", td2_ok(g, b, pos, lambda p, e: conf2(g, p, e)); yield "skipped shifts contradict an earlier place", td2_ok(g, b, m + 1, lambda p, e: Or(ult(p, pos), weak(p, e)))
        return Loop("second pass" if second else "first pass", I, lambda L: L.st.ghost["m"] + 1 - L.v("pos"), roles={"pos": 64})
    def ens(ex, p, st, r):
        g = st.ghost; b, l = T2(ex, st); yield "one entry per place", l == g["m"] + 1; yield "shifts in range", td2_rng(g, b, g["m"] + 1); yield "skipped shifts contradict", td2_ok(g, b, g["m"] + 1, lambda p, e: conf2(g, p, e))
    return Spec("w_ms_new", req, ens, loops=loops, title="SundayMS::SundayMS", models=[(re.compile(r"SundayQS::SundayQS\("), m_qs), (re.compile(r"SundayMS::SundayMS.*'lambda'.*::operator\(\)\("), m_shift)])
# ---- factor oracle: what the matchers rely on (the oracle of the reversed pattern; w[x] = key[m-1-x])
acc = z3.Function("oracle_has_edge", B, z3.BitVecSort(8), z3.BoolSort()); nxt = z3.Function("oracle_target", B, z3.BitVecSort(8), B); D = z3.Function("oracle_state_of_factor", B, B, B)
def W(g, x): return K(g, g["m"] - 1 - x)
def m_image(ex, st, ins, args):
    o, sp, c = args; g = st.ghost; m = g["m"]
    class T64: kind = "int"; width = 64; size = 8
    ex.safety(st, "image is asked of this matcher's oracle", z3.BoolVal(o.r is g["o"] and o.o.const() == 24)); s = ex.load(st, sp, T64, "state"); ex.safety(st, "state exists", ule(s, m))
    out = []
    for yes in (True, False):
        s2 = st.copy(); t = fresh("state") if yes else s
        if yes: s2.assume(acc(s, c), t == nxt(s, c), ult(s, t), ule(t, m), imp(t == s + 1, c == W(g, s)))
        else: s2.assume(Not(acc(s, c)))
        if yes: ex.store(s2, sp, t, T64, "state")
        out.append((s2, z3.BoolVal(yes)))
    return out
m_image.label = "FactorOracle::image (contract proved under B19: edges lead forward, an edge to the next state carries the next character, every factor can be read)"
def bom_setup(ex, st):
    g = st.ghost; m = g["m"]; st.assume(Forall(lambda e: D(e, e) == 0, "oe"), Forall(lambda e, x: imp(And(ule(e, x), ult(x, m)), And(acc(D(e, x), W(g, x)), nxt(D(e, x), W(g, x)) == D(e, x + 1))), ["oe", "ox"]))
def explains(g, a, s, ln): return lambda e: imp(And(Occ(g, a + e), ult(e, g["m"]), ule(e + ln, g["m"])), s == D(e, e + ln))
def reading(L, a, ln):
    """after reading ln characters backwards from the window's end; a: start of the window"""
    st = L.st; g = st.ghost; m = g["m"]; s = L.v("state"); i = z3.simplify(a + m - 1); st.term("rq", ln); hd = getattr(L, "h", None)
    if hd is not None:
        l0 = z3.simplify(ln - 1); x = fresh("x"); e = z3.simplify(m - 1 - l0 - x); s0 = hd.v("state"); c = T(g, i - l0); s2 = st.copy(); w = And(Occ(g, a + e), ult(e, m), ule(e + ln, m)); s2.assume(w)
        by(L.ex, s2, "a factor is read on", s == D(e, e + ln), [(w, {}), (And(ule(one, ln), ule(ln, m), ult(a, LIM), ult(m, LIM), ule(one, m)), {}), (s0 == D(e, e + l0), {"off": [e]}), (And(ult(x, m), ult(a + e, BIG), mis(a + e) == m), {"only": 1}), (c == W(g, e + l0), {"only": 1, "start": [a + e], "q": [x]}), (nxt(s0, c) == D(e, e + ln), {"only": 1, "oe": [e], "ox": [e + l0]}), (s == nxt(s0, c), {})])
        st.assume(Forall(explains(g, a, s, ln), "off"))
    yield "characters read", ule(ln, m); yield "state", And(ule(ln, s), ule(s, m))
    yield "reaching the state numbered by the length means reading the reversed pattern", Forall(lambda q: (imp(And(ult(q, ln), s == ln), T(g, i - q) == K(g, m - 1 - q)), [("rq", q)]), "rq", name="q")
    yield "an occurrence overlapping what was read explains the state", Forall(lambda e: (explains(g, a, s, ln)(e), [("oe", e), ("off", e)]), "off", name="e")
def excluded(L, a):
    """reading stopped after ln characters: no occurrence starts in [a, a + m - ln)"""
    st = L.st; g = st.ghost; m = g["m"]; s, ln = g["rd"]; c = T(g, a + m - 1 - ln)
    def facts(p, e):
        return [(And(ule(e + ln, m - 1), ule(ln, m), ult(e, m), ult(a, LIM), ult(m, LIM), ule(one, m)), {}), (s == D(e, e + ln), {"off": [e]}), (And(ult(m - 1 - ln - e, m), ult(p, BIG), mis(p) == m), {"only": 1}), (c == W(g, e + ln), {"only": 1, "start": [p], "q": [m - 1 - ln - e]}), (acc(s, c), {"only": 1, "oe": [e], "ox": [e + ln]}), (Not(acc(s, c)), {})]
    terms = lambda p, e: []
    none_between(L, a, z3.simplify(a + m - ln), facts, terms, True)
def bom_find(ex, blk, k):
    if not nest(ex, blk):
        def I(L):
            st = L.st; g = st.ghost; i = L.v("i"); m = g["m"]; hd = getattr(L, "h", None); prev = ()
            if hd is not None:
                a = z3.simplify(hd.v("i") + 1 - m); prev = (a,); s, ln = g["rd"]
                if L.ex.quick(st, ult(ln, m)): excluded(L, a)
                else: st.term("rq", m - 1 - mis(a)); st.term("start", a)
            yield "window end", And(ule(m - 1, i), ult(i, LIM << 1)); yield from settled(L.ex, st, z3.simplify(i + 1 - m), prev)
        return Loop("windows", I, lambda L: BIG - L.v("i"), roles={"i": 64}, after=last(lambda L: z3.simplify(L.v("i") + 1 - L.st.ghost["m"])))
    def J(L):
        i = enclosing(L, "windows", "i"); g = L.st.ghost; yield from reading(L, z3.simplify(i + 1 - g["m"]), z3.simplify(i - L.v("pos")))
    def after(st, L): st.ghost["rd"] = (L.v("state"), z3.simplify(enclosing(L, "windows", "i") - L.v("pos")))
    return Loop("read backwards", J, lambda L: L.v("pos") + 1, roles={"pos": 64, "state": 64}, after=after)

# ---- Turbo-BOM: oracle search that continues with Knuth-Morris-Pratt from the critical position
def turbo_setup(ex, st): bom_setup(ex, st); kmp_setup(ex, st, 96)
def nested(ex, blk): return any(h in ex.loops[blk] for h in ex.loops if h is not blk)
def turbo_find(ex, blk, k):
    begin = lambda i, g: z3.simplify(i + 1 - g["m"])
    def here(L):
        """window start, critical position, start of the part read by the oracle"""
        g = L.st.ghost; b = begin(enclosing(L, "windows", "back"), g); return b, enclosing(L, "windows", "critpos"), z3.simplify(b + g["m"] - g["rd"][1])
    def kmp_from(L):
        b, cp, p1 = here(L); k = (p1.get_id(), cp.get_id()); c = L.st.ghost.get("kb", (None,))
        if c[0] != k: c = L.st.ghost["kb"] = (k, p1 if L.ex.quick(L.st, p1 > cp) else cp if L.ex.quick(L.st, p1 <= cp) else z3.If(p1 > cp, p1, cp), p1, cp)
        return c[1]
    if not nest(ex, blk):
        def I(L):
            st = L.st; g = st.ghost; b = begin(L.v("back"), g); cp = L.v("critpos"); hd = getattr(L, "h", None); prev = ()
            if hd is not None:
                a = begin(hd.v("back"), g)
                if L.ex.quick(st, g["rd"][1] == g["m"]): prev = (a,); st.term("rq", g["m"] - 1 - mis(a)); st.term("start", a); jump(L, a, g["m"], Sel(g["a"], g["m"]), b)
                else: prev = (g["kw"],)
            st.term("start", b)
            yield "window", And(ult(b, LIM << 1), ule(b, cp), ule(cp - b, g["m"]), ule(cp, g["n"]))
            yield ("the part before the critical position matches", ule(cp - b, mis(b))) + ((None, g["pfx"] + [Sel(g["a"], g["m"]) != neg1, cp - b == Sel(g["a"], g["m"])]) if prev and "pfx" in g and L.ex.quick(st, g["rd"][1] == g["m"]) else ())
            yield from settled(L.ex, st, b, prev)
        return Loop("windows", I, None, roles={"back": 64, "critpos": 64}, after=last(lambda L: begin(L.v("back"), L.st.ghost)))
    if not nested(ex, blk) and sum(blk in b for b in ex.loops.values()) == 2:
        def J(L):
            i = enclosing(L, "windows", "back"); g = L.st.ghost; yield from reading(L, begin(i, g), z3.simplify(i - L.v("pos")))
        def after(st, L): st.ghost["rd"] = (L.v("state"), z3.simplify(enclosing(L, "windows", "back") - L.v("pos")))
        return Loop("read backwards", J, lambda L: L.v("pos") + 1, roles={"pos": 64, "state": 64}, after=after)
    if nested(ex, blk):
        def S(L):
            st = L.st; g = st.ghost; kb = kmp_from(L); i, pos = L.v("i"), L.v("pos"); w = z3.simplify(kb + i - pos); hd = getattr(L, "h", None); prev = ()
            if hd is None:
                b, cp, p1 = here(L); prev = (b,); excluded(L, b)
            else: prev = (g["bi"],)
            st.term("q", pos); st.term("start", w)
            if hd is None:      # the two cases of the start position, one by one
                M, l = result(L.ex, st); out = []
                for c, x in ((p1 > cp, p1), (p1 <= cp, b)):
                    s2 = st.copy(); s2.assume(c, w == x)
                    if L.ex.quick(st, Not(c)): continue
                    for lab, goal, *sh in settled(L.ex, s2, x, prev): L.ex.oblige_item(s2, "scan starts: ", (lab, goal, *sh))
                    st.assume(imp(And(c, w == x), l == Cn(x)), Forall(lambda p, c=c, x=x: imp(And(c, w == x, ult(p, x), Occ(g, p)), Sel(M, Cn(p)) == p), "occ"))
                yield "start is one of the two", Or(And(p1 > cp, w == p1), And(p1 <= cp, w == b)); st.assume(Or(And(p1 > cp, w == p1), And(p1 <= cp, w == b)))
            yield "position in the text", And(ule(kb + i, g["n"]), ule(i, g["n"])); yield "matched prefix", And(ule(pos, g["m"]), ule(pos, kb + i)); yield "window start in range", ult(w, BIG)
            yield "the matched prefix is in the text", ule(pos, mis(w))
            yield from settled(L.ex, st, w, prev)
        def after(st, L): st.ghost["kw"] = z3.simplify(kmp_from(L) + L.v("i") - L.v("pos"))
        return Loop("scan", S, lambda L: L.st.ghost["n"] - L.v("i"), roles={"i": 64, "pos": 64}, after=after)
    def F(L):
        st = L.st; g = st.ghost; i = z3.simplify(kmp_from(L) + enclosing(L, "scan", "i")); pos = L.v("pos"); b = i - pos; st.term("q", pos); st.term("start", b); hd = getattr(L, "h", None)
        if hd is not None: jump(L, i - hd.v("pos"), hd.v("pos"), pos, b)
        yield "matched prefix or -1", And(ult(pos + 1, g["m"] + 1), ule(pos + 1, i + 1))
        yield ("the matched prefix is in the text", imp(pos != neg1, ule(pos, mis(b)))) + ((None, g["pfx"]) if hd is not None else ())
        yield from settled(L.ex, st, b, (i - hd.v("pos"),) if hd is not None else ())
    def after(st, L): st.ghost["pi"] = L.v("pos"); st.ghost["bi"] = z3.simplify(kmp_from(L) + enclosing(L, "scan", "i") - L.v("pos"))
    return Loop("follow the failure links", F, lambda L: L.v("pos") + 1, roles={"pos": 64}, after=after)

# ---- constructors of the oracle matchers and the one-call functions
def m_oracle_new(ex, st, ins, args):
    o, b, e = args; g = st.ghost; class_ = type("P", (), {"kind": "pointer", "width": 64, "size": 8}); pb, pe = ex.load(st, b, class_, "reverse iterator"), ex.load(st, e, class_, "reverse iterator")
    ok = o.r is g["o"] and o.o.const() == 24 and isinstance(pb, Ptr) and isinstance(pe, Ptr) and pb.r is g["kr"] and pe.r is g["kr"]
    ex.safety(st, "the oracle is built from the reversed pattern", And(z3.BoolVal(ok), ex.idx_of(st, pb) == g["m"], ex.idx_of(st, pe) == 0) if ok else z3.BoolVal(False)); g["oracle"] = True; return None
m_oracle_new.label = "FactorOracle::FactorOracle (contract proved under B19)"
def m_kmp_new(ex, st, ins, args):
    g = st.ghost; o, m, k = args; ok = o.r is g["o"] and o.o.const() == 96 and k.r is g["kr"] and k.o.const() == 0; ex.safety(st, "the KMP part gets the pattern", And(z3.BoolVal(ok), m == g["m"])); kmp_setup(ex, st, 96); g["kmp"] = True; return None
m_kmp_new.label = "Kmp::Kmp (contract proved in this check)"
def oracle_new(fn, title, kmp):
    def ens(ex, p, st, r):
        g = st.ghost; yield from view(ex, st); yield "the oracle is built", z3.BoolVal(bool(g.get("oracle")))
        if kmp: yield "the failure links are built", z3.BoolVal(bool(g.get("kmp")))
    return new(fn, title, ens, None)
def whole(fn, cls):
    """PatternMatchX(text, key): the matcher is built for the key, asked for the text, and its answer returned"""
    def req(ex, st):
        (k, m), (t, n), _, v = base(ex, st, False, True); st.ghost.update(kr=k, tr=t); return [Ptr(v), Ptr(t), n, Ptr(k), m]
    def ens(ex, p, st, r): yield "the answer is the matcher's", z3.BoolVal(st.ghost.get("done") == 1)
    def ctor(ex, st, ins, args):
        g = st.ghost; n = [a for a in args[1:] if isinstance(a, Ptr)]; l = [a for a in args[1:] if not isinstance(a, Ptr)]; ok = len(n) == 1 and len(l) == 1 and n[0].r is g["kr"] and n[0].o.const() == 0 and args[0].o.const() == 0
        ex.safety(st, "the matcher is built for the key", And(z3.BoolVal(ok), l[0] == g["m"])); g["made"] = args[0].r.id; return None
    def run(ex, st, ins, args):
        g = st.ghost; v, o, n, t = args; ok = v.r is g["v"] and v.o.const() == 0 and o.r.id == g.get("made") and o.o.const() == 0 and t.r is g["tr"] and t.o.const() == 0
        ex.safety(st, "the matcher is asked for the text", And(z3.BoolVal(ok), n == g["n"])); g["done"] = g.get("done", 0) + 1; return None
    ctor.label = run.label = cls + " (contracts proved in this check)"
    return Spec(fn, req, ens, title=fn.replace("w_", "PatternMatch "), models=[(re.compile(r"^sim_ds::pattern_matching::%s::%s\(" % (cls, cls)), ctor), (re.compile(r"^sim_ds::pattern_matching::%s::find_all\(" % cls), run), (re.compile(r"~"), m_nop)])
