"""Contract-based VC generator over the LLVM IR of the real code.

A function under contract is executed symbolically, once per control path; loops are cut at their header by the
loop contract (entry / preservation / variant obligations, arbitrary state in between), calls to functions that carry
a contract are replaced by that contract, everything else has been inlined from the real source.  Every memory access,
shift, division and signed operation adds its own safety obligation.
"""
import itertools, re
import z3
from . import llvm as LL

B64 = z3.BitVecSort(64)
def bv(v, w=64): return z3.BitVecVal(v, w)
def fresh(name, w=64):
    _c[0] += 1
    return z3.Const(f"{name}!{_c[0]}", z3.BitVecSort(w) if isinstance(w, int) else w)
_c = [0]
def freshbool(name):
    _c[0] += 1
    return z3.Bool(f"{name}!{_c[0]}")
def fresh_arr(name, w):
    _c[0] += 1
    return z3.Array(f"{name}!{_c[0]}", B64, z3.BitVecSort(w))
def b2bv(b, w=1): return z3.If(b, bv(1, w), bv(0, w))
def simp(e): return z3.simplify(e)
def conc(e):
    """concrete int value of a BV expr or None"""
    if z3.is_bv_value(e): return e.as_long()
    s = z3.simplify(e)
    return s.as_long() if z3.is_bv_value(s) else None

def lim(s, ms):
    """limit of a quick query in solver steps (about ms milliseconds), so that the generated obligations do not depend on the machine's load"""
    s.set("rlimit", ms * 8000); s.set("timeout", 20 * ms)

class Unsupported(Exception): pass

# ---------------------------------------------------------------- linear byte offsets
class Lin:
    __slots__ = ("c", "t")
    def __init__(self, c=0, t=()): self.c = c; self.t = t
    def add(self, o):
        d = {}
        for k, e in self.t + o.t:
            i = e.get_id()
            d[i] = (d[i][0] + k, e) if i in d else (k, e)
        return Lin(self.c + o.c, tuple((k, e) for k, e in d.values() if k))
    def mul(self, n): return Lin(self.c * n, tuple((k * n, e) for k, e in self.t))
    def neg(self): return self.mul(-1)
    def bv(self):
        r = bv(self.c)
        for k, e in self.t: r = r + (e if k == 1 else e * bv(k))
        return r
    def const(self): return self.c if not self.t else None
    def div(self, s):
        """(index Lin, remainder const) or None"""
        if any(k % s for k, e in self.t): return None
        return Lin(self.c // s, tuple((k // s, e) for k, e in self.t)), self.c % s
    def __repr__(self): return f"{self.c}" + "".join(f"+{k}*{e}" for k, e in self.t)

def lin_of(e, depth=6):
    """linear view of a 64-bit expression (over + - * const and shl const)"""
    if z3.is_bv_value(e):
        v = e.as_long(); return Lin(v - (1 << 64) if v >> 63 else v)
    if depth and z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Lin()
            for a in e.children(): r = r.add(lin_of(a, depth - 1))
            return r
        if k == z3.Z3_OP_BSUB:
            ch = e.children(); r = lin_of(ch[0], depth - 1)
            for a in ch[1:]: r = r.add(lin_of(a, depth - 1).neg())
            return r
        if k == z3.Z3_OP_BNEG: return lin_of(e.arg(0), depth - 1).neg()
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            if z3.is_bv_value(b): a, b = b, a
            if z3.is_bv_value(a):
                v = a.as_long(); v = v - (1 << 64) if v >> 63 else v
                return lin_of(b, depth - 1).mul(v)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < 64:
            return lin_of(e.arg(0), depth - 1).mul(1 << e.arg(1).as_long())
    return Lin(0, ((1, e),))

def sub_index(mi, si):
    """index of element si of the inline array inside array element mi (inline arrays have at most 256 elements)"""
    return z3.Concat(z3.Extract(55, 0, mi), z3.Extract(7, 0, si))

class Region:
    n = 0
    def __init__(self, name, kind, stride=None, size=None, **kw):
        Region.n += 1
        self.id = Region.n; self.name = name; self.kind = kind   # 'struct' | 'array' | 'const' | 'func'
        self.stride = stride; self.size = size                   # array: element count (BV64); struct: byte size or None
        self.kinds = set(kw.pop("kinds", ())) | {name, "idx"}
        self.readonly = kw.pop("readonly", False)
        self.subs = kw.pop("subs", ())                           # (start, count, bytes): inline array fields
        self.table = kw.pop("table", None)
        self.obj = kw.pop("obj", None)
        self.inline = ()                                         # struct: [(offset, bytes, array region)] member arrays
        self.base = z3.BitVec(f"&{name}.{self.id}", 64)
        assert not kw, kw
    def __repr__(self): return f"<{self.name}#{self.id}>"

class Ptr:
    __slots__ = ("r", "o")
    def __init__(self, r, o=None): self.r = r; self.o = o or Lin()
    def __repr__(self): return f"({self.r},{self.o})"
    def plus(self, n): return Ptr(self.r, self.o.add(Lin(n) if isinstance(n, int) else n))
    def isnull(self): return self.r is None
NULL = Ptr(None)

class Agg(tuple): pass     # first-class struct value

class Forall:
    """universally quantified fact / goal; instantiated explicitly at recorded index terms (sound), skolemised as a goal"""
    def __init__(self, fn, kinds=("idx",), name="k", sorts=None, also=None):
        self.fn = fn; self.kinds = [(k,) if isinstance(k, str) else tuple(k) for k in ([kinds] if isinstance(kinds, str) else kinds)]
        import inspect
        self.arity = sum(1 for p in inspect.signature(fn).parameters.values() if p.default is inspect.Parameter.empty)
        if len(self.kinds) < self.arity: self.kinds = self.kinds * self.arity
        self.name = name; self.sorts = sorts or [64] * self.arity; self.frozen = None
    def freeze(self):
        """evaluates the body once, now: later changes of the ghost state must not leak into a recorded fact"""
        if self.frozen is None:
            vs = [z3.FreshConst(z3.BitVecSort(s) if isinstance(s, int) else s, "bound") for s in self.sorts]; b = self.fn(*vs); ex = []
            if isinstance(b, tuple): b, ex = b
            if isinstance(b, bool): b = z3.BoolVal(b)
            self.frozen = (vs, b, [(k, z3.BoolVal(e) if isinstance(e, bool) else bv(e) if isinstance(e, int) else e) for k, e in ex])
        return self
    def inst(self, *args):
        self.freeze(); vs, b, ex = self.frozen; m = list(zip(vs, args))
        b = z3.substitute(b, *m)
        return (b, [(k, z3.substitute(e, *m)) for k, e in ex]) if ex else b

class State:
    __slots__ = ("env", "mem", "hyps", "terms", "dead", "vecs", "trace", "ghost", "poison")
    def __init__(self):
        self.poison = {}; self.env = {}; self.mem = {}; self.hyps = []; self.terms = {}; self.dead = set(); self.vecs = {}; self.trace = (); self.ghost = {}
    def copy(self):
        s = State(); s.env = dict(self.env); s.mem = dict(self.mem); s.hyps = list(self.hyps)
        s.terms = {k: dict(v) for k, v in self.terms.items()}; s.dead = set(self.dead); s.vecs = dict(self.vecs); s.trace = self.trace
        s.ghost = dict(self.ghost); s.poison = dict(self.poison)
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)): self.assume(*f)
            elif isinstance(f, bool):
                if not f: self.hyps.append(z3.BoolVal(False))
            else: self.hyps.append(f.freeze() if isinstance(f, Forall) else f)
    def term(self, kinds, e):
        if isinstance(kinds, str): kinds = (kinds,)
        if isinstance(e, int): e = bv(e)
        e = z3.simplify(e)
        for k in kinds: self.terms.setdefault(k, {})[e.get_id()] = e

class Obligation:
    __slots__ = ("fn", "label", "line", "hyps", "goal", "terms", "status", "backend", "time", "model", "parts", "left", "bad", "kind", "trace", "shape")
    def __init__(self, **k):
        self.status = None; self.backend = None; self.time = 0; self.model = None; self.parts = None; self.left = 0; self.bad = None; self.kind = "contract"; self.trace = (); self.shape = None
        for a, b in k.items(): setattr(self, a, b)

class LoopView:
    """what a loop contract sees at the loop head"""
    def __init__(self, ex, st, pre, binds, entry):
        self.ex = ex; self.st = st; self.pre = pre; self.binds = binds; self.entry = entry
    def v(self, name): 
        if name not in self.binds: raise Unsupported(f"loop variable '{name}' not found (have {sorted(self.binds)})")
        return self.binds[name]
    def has(self, name): return name in self.binds
    # structural access (independent of variable names): loop-carried pointers into a region / integers of a width
    def phis(self): return [self.st.env[i.idx] for i in self.blk.insts if i.op == "phi"]
    def ptrs(self, name):
        ps = [v for v in self.phis() if isinstance(v, Ptr) and v.r is not None]
        return [v for v in ps if v.r is name or v.r.name == name] or [v for v in ps if v.r.name.rstrip("'") == name]
    def ix(self, name, n=0):
        """element index of the n-th loop-carried pointer into region `name`"""
        ps = self.ptrs(name)
        if n >= len(ps): raise Unsupported(f"no loop-carried pointer {n} into {name} (have {self.phis()})")
        return self.ex.idx_of(self.st, ps[n])
    def ints(self, w=64): return [v for v in self.phis() if z3.is_bv(v) and v.size() == w]
    def int(self, n=0, w=64):
        l = self.ints(w)
        if n >= len(l): raise Unsupported(f"no loop-carried {w}-bit integer {n}")
        return l[n]

class LoopCtx:
    def __init__(self, header, body): self.header = header; self.body = body; self.written = set()

class Prover:
    """collects obligations"""
    def __init__(self): self.obs = []

class Exec:
    MAXPATHS = 4000
    def __init__(self, mod, dem, fname, prover, models, spec, nsw=True):
        self.mod = mod; self.dem = dem; self.F = mod.func(fname)
        if self.F is None: raise Unsupported(f"function {fname} not found in extracted IR")
        self.fname = fname; self.P = prover; self.models = models; self.spec = spec
        self.loops = LL.natural_loops(self.F)
        self.lctx = []; self.buf = []; self.globals = {}; self.rets = []; self.paths = 0; self.nsw = nsw
        self.fs = z3.SolverFor("QF_AUFBV"); self.cur = None; self.binding = {}
        self.feas_cache = {}
        self.locals = {}; self.used_models = {}; self.pend = []; self.fptags = {}

    # ------------------------------------------------------------ obligations
    def oblige(self, st, label, goal, kind="contract", shape=None):
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal): self.oblige(st, f"{label}.{i}", g, kind, shape)
            return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, Forall): goal.freeze()
        line = self.cur.line if self.cur is not None else 0
        self.buf.append(Obligation(fn=self.fname, label=label, line=line, hyps=list(st.hyps), goal=goal,
                                   terms={k: dict(v) for k, v in st.terms.items()}, kind=kind, trace=st.trace, shape=shape))
    def oblige_item(self, st, pre, it):
        """(label, goal[, shape[, using]]): with `using`, every listed fact is an obligation of its own and the goal must follow from those facts alone"""
        shape = it[2] if len(it) > 2 else None; using = it[3] if len(it) > 3 else None
        if using is None: return self.oblige(st, pre + it[0], it[1], shape=shape)
        for k, f in enumerate(using): self.oblige(st, f"{pre}{it[0]}: step {k}", f)
        s2 = st.copy(); s2.hyps = list(using); s2.terms = {k: dict(v) for k, v in st.terms.items()}
        self.oblige(s2, f"{pre}{it[0]}: conclusion", it[1], shape=shape)
    def rewrite(self, st, label, a, b):
        """obligation a == b; later extensions computing a are written as b"""
        self.safety(st, label, a == b); st.ghost["eqs"] = tuple(st.ghost.get("eqs", ())) + ((z3.simplify(a), b),)
    def rw(self, st, r):
        if "eqs" in st.ghost:
            s = z3.simplify(r)
            for x, y in st.ghost["eqs"]:
                if s.eq(x): return y
        return r
    def safety(self, st, label, goal):
        """safety obligation, then assumed on the rest of the path"""
        if z3.is_expr(goal):
            g = z3.simplify(goal)
            if z3.is_true(g):
                self.P.trivial = getattr(self.P, "trivial", 0) + 1; return
        self.oblige(st, label, goal, kind="safety"); st.assume(goal)

    # deferred (poison-like) undefinedness: only an obligation where the value is actually used
    def okof(self, st, v):
        return st.poison.get(v.idx) if v.kind == "inst" else None
    def need(self, st, *vs):
        for v in vs:
            for c in (self.okof(st, v) or ()): self.safety(st, c[0], c[1])
    def pend_ok(self, label, cond):
        if not z3.is_true(z3.simplify(cond)): self.pend.append((label, cond))

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        s = self.fs; s.push()
        lim(s, 300)
        from .solve import ground
        try:
            fs = [h for h in st.hyps if not isinstance(h, Forall)]
            for h in fs: s.add(h)
            s.add(c)
            return s.check() != z3.unsat
        finally: s.pop()

    # ------------------------------------------------------------ memory
    def new_array(self, st, name, stride, size, width=None, off=0, **kw):
        r = Region(name, "array", stride=stride, size=bv(size) if isinstance(size, int) else size, **kw)
        st.mem[(r.id, off, width or stride * 8)] = fresh_arr(name, width or stride * 8)
        return r
    def new_struct(self, name, size=None, **kw): return Region(name, "struct", size=size, **kw)
    def arr(self, st, r, off=0, width=None):
        w = width or (r.stride * 8)
        k = (r.id, off, w)
        if k not in st.mem: st.mem[k] = fresh_arr(r.name, w)
        return st.mem[k]
    def set_arr(self, st, r, a, off=0, width=None):
        k = (r.id, off, width or r.stride * 8); st.mem[k] = a; self.wrote(k)
    def cell(self, st, r, off, w=64, ptr=False):
        k = (r.id, off)
        if k not in st.mem:
            if ptr: raise Unsupported(f"uninitialised pointer cell {r}+{off}")
            st.mem[k] = fresh(f"{r.name}.{off}", w)
        return st.mem[k]
    def set_cell(self, st, r, off, v):
        k = (r.id, off); st.mem[k] = v; self.wrote(k)
    def wrote(self, k):
        for c in self.lctx: c.written.add(k)

    def locate(self, st, p, nbytes, what):
        if p.r is None:
            self.safety(st, f"{what}: null dereference", z3.BoolVal(False)); raise PathEnd()
        r = p.r
        if r.id in st.dead:
            self.safety(st, f"{what}: use of released storage {r.name}", z3.BoolVal(False)); raise PathEnd()
        if r.kind == "struct":
            o = p.o.const()
            for s0, nb, rr in r.inline:
                if (s0 <= o < s0 + nb) if o is not None else (s0 <= p.o.c < s0 + nb): return self.locate(st, Ptr(rr, Lin(p.o.c - s0, p.o.t)), nbytes, what)
            if o is None:
                o = conc(p.o.bv())
                if o is None: o = self.unique(st, p.o.bv())
                if o is None: raise Unsupported(f"symbolic offset into object {r}: {p.o}")
            if r.size is not None and not (0 <= o and o + nbytes <= r.size):
                self.safety(st, f"{what}: out of object {r.name}", z3.BoolVal(False)); raise PathEnd()
            return ("s", r, o)
        # array / const
        d = p.o.div(r.stride)
        if d is None:
            for (s0, cnt, eb) in r.subs:
                major = Lin(0, tuple((k // r.stride, e) for k, e in p.o.t if k % r.stride == 0))
                rest = Lin(p.o.c, tuple((k, e) for k, e in p.o.t if k % r.stride))
                dd = Lin(rest.c - s0, rest.t).div(eb)
                if dd is None or dd[1] or eb != nbytes: continue
                mi = major.bv(); si = dd[0].bv()
                self.safety(st, f"{what}: index in bounds of {r.name}", z3.ULT(mi, r.size))
                self.safety(st, f"{what}: index in bounds of inline array in {r.name}", z3.ULT(si, bv(cnt)))
                st.term(r.kinds, mi); st.term(("sub",), si)
                return ("sub", r, s0, eb, sub_index(mi, si))
            # last resort: bytes of a byte-strided view
            x = p.o.bv()
            if r.stride & (r.stride - 1) == 0:
                # aligned by construction?
                self.safety(st, f"{what}: aligned access to {r.name}", z3.URem(x, bv(r.stride)) == 0)
                idx = z3.UDiv(x, bv(r.stride)); rem = 0
                idx = z3.simplify(idx)
            else: raise Unsupported(f"offset {p.o} into {r} not a multiple of stride {r.stride}")
        else:
            idx, rem = d[0].bv(), d[1]
        idx = z3.simplify(idx)
        for (s0, cnt, eb) in r.subs:
            if s0 <= rem < s0 + cnt * eb and nbytes == eb and (rem - s0) % eb == 0:
                self.safety(st, f"{what}: index in bounds of {r.name}", z3.ULT(idx, r.size)); st.term(r.kinds, idx)
                return ("sub", r, s0, eb, sub_index(idx, bv((rem - s0) // eb)))
        if nbytes > r.stride:
            if nbytes % r.stride or rem: raise Unsupported(f"wide access of {nbytes} bytes to stride {r.stride}")
            n = nbytes // r.stride
            self.safety(st, f"{what}: index in bounds of {r.name}",
                        z3.And(z3.ULT(idx, r.size), z3.ULE(bv(n), r.size - idx)))
            for j in range(n): st.term(r.kinds, idx + bv(j))
            return ("w", r, idx, n)
        self.safety(st, f"{what}: index in bounds of {r.name}", z3.ULT(idx, r.size))
        st.term(r.kinds, idx)
        return ("a", r, rem, idx)

    def load(self, st, p, ty, what="load"):
        n = ty.size; w = ty.width if ty.kind == "int" else n * 8
        L = self.locate(st, p, n, what)
        if L[0] == "s":
            _, r, o = L
            v = st.mem.get((r.id, o))
            if v is None:
                if r.obj is not None:
                    v = r.obj(self, st, r, o, ty)
                    if v is not None: st.mem[(r.id, o)] = v; return v
                if ty.kind == "pointer": raise Unsupported(f"load of unknown pointer from {r}+{o}")
                v = fresh(f"{r.name}.{o}", w) if not (ty.kind == "int" and ty.width == 1) else freshbool(f"{r.name}.{o}")
                st.mem[(r.id, o)] = v
                return v
            if ty.kind == "pointer":
                if not isinstance(v, Ptr): raise Unsupported(f"load of integer as pointer {r}+{o}")
                return v
            if isinstance(v, Ptr): return self.ptr2int(st, v)
            if ty.kind == "int" and ty.width == 1: return v if z3.is_bool(v) else z3.Extract(0, 0, v) == 1
            if z3.is_bool(v): v = b2bv(v, 8)
            if v.size() == w: return v
            if v.size() > w: return z3.Extract(w - 1, 0, v)
            # little-endian concat of following cells
            parts = []; got = 0; oo = o
            while got < w:
                c = st.mem.get((r.id, oo))
                if c is None or isinstance(c, Ptr): raise Unsupported(f"partial load {r}+{o}:{w}")
                if z3.is_bool(c): c = b2bv(c, 8)
                parts.append(c); got += c.size(); oo += c.size() // 8
            if got != w: raise Unsupported(f"overlapping load {r}+{o}:{w}")
            return z3.Concat(*reversed(parts))
        if L[0] == "sub":
            _, r, s0, eb, i = L
            return z3.Select(self.arr(st, r, ("sub", s0), eb * 8), i)
        if L[0] == "w":
            _, r, idx, k = L
            a = self.arr(st, r, 0)
            return z3.Concat(*[z3.Select(a, z3.simplify(idx + bv(j))) for j in reversed(range(k))])
        _, r, off, idx = L
        if r.kind == "const":
            return self.table_load(r, off, w, idx)
        if ty.kind == "pointer":
            h = st.mem.get((r.id, off, "ptr"))
            if h is None: raise Unsupported(f"load pointer from array {r}")
            return h(self, st, idx)
        if ty.kind == "int" and ty.width == 1:
            return z3.Extract(0, 0, z3.Select(self.arr(st, r, off, 8), idx)) == 1
        return z3.Select(self.arr(st, r, off, w), idx)

    def store(self, st, p, v, ty, what="store"):
        n = ty.size; w = ty.width if ty.kind == "int" else n * 8
        L = self.locate(st, p, n, what)
        r = L[1]
        if r.readonly or r.kind == "const": self.safety(st, f"{what}: write to read-only {r.name}", z3.BoolVal(False))
        if L[0] == "s":
            o = L[2]
            for k in [k for k in st.mem if k[0] == r.id and len(k) == 2 and isinstance(k[1], int) and o - 8 <= k[1] < o + n and k[1] != o]:
                c = st.mem[k]; sz = 8 if isinstance(c, Ptr) else (1 if z3.is_bool(c) else c.size() // 8)
                if k[1] + sz > o:
                    if k[1] > o and k[1] + sz <= o + n: del st.mem[k]
                    else: raise Unsupported(f"overlapping store {r}+{o}")
            old = st.mem.get((r.id, o))
            if old is not None and z3.is_bv(old) and z3.is_bv(v) and old.size() > v.size():
                raise Unsupported(f"partial overwrite {r}+{o}")
            st.mem[(r.id, o)] = v; self.wrote((r.id, o)); return
        if isinstance(v, Ptr): raise Unsupported(f"store pointer into array {r}")
        if z3.is_bool(v): v = b2bv(v, 8)
        if L[0] == "sub":
            _, r, s0, eb, i = L
            self.set_arr(st, r, z3.Store(self.arr(st, r, ("sub", s0), eb * 8), i, v), ("sub", s0), eb * 8); return
        if L[0] == "w":
            _, r, idx, k = L
            a = self.arr(st, r, 0); s8 = r.stride * 8
            for j in range(k): a = z3.Store(a, z3.simplify(idx + bv(j)), z3.Extract(s8 * j + s8 - 1, s8 * j, v))
            self.set_arr(st, r, a); return
        _, r, off, idx = L
        self.set_arr(st, r, z3.Store(self.arr(st, r, off, w), idx, v), off, w)

    def table_load(self, r, off, w, idx):
        vals = r.table[(off, w)]
        c = conc(idx)
        if c is not None: return bv(vals[c] if c < len(vals) else 0, w)
        memo = {}
        nb = max(1, (len(vals) - 1).bit_length())
        def go(lo, bit):
            key = tuple(vals[lo:lo + (1 << bit)])
            if key in memo: return memo[key]
            if all(x == key[0] for x in key) and key: r_ = bv(key[0], w)
            elif not key: r_ = bv(0, w)
            elif bit == 0: r_ = bv(key[0], w)
            else:
                a, b = go(lo, bit - 1), go(lo + (1 << (bit - 1)), bit - 1)
                r_ = a if a.eq(b) else z3.If(z3.Extract(bit - 1, bit - 1, idx) == 1, b, a)
            memo[key] = r_
            return r_
        return go(0, nb)

    def global_region(self, name):
        if name in self.globals: return self.globals[name]
        ty, init, isc = self.mod.global_init(name)
        vals = []
        def flat(t, v):
            if t.kind == "array":
                if v.kind == "zero": 
                    for _ in range(t.n): flat(t.elem, v)
                else:
                    for x in v.ops: flat(t.elem, x)
            elif t.kind == "int": vals.append(v if isinstance(v, int) else (0 if v.kind in ("zero", "undef", "poison") else v.val))
            else: raise Unsupported(f"global {name} of type {t}")
        r = None
        if init is not None and isc and ty.kind == "array":
            t = ty
            while t.kind == "array": t = t.elem
            if t.kind == "int":
                flat(ty, init)
                r = Region("@" + self.dem.get(name, name), "const", stride=t.size, size=bv(len(vals)), readonly=True, table={(0, t.width): vals})
        if r is None and init is not None and isc and ty.kind == "int":
            r = Region("@" + name, "const", stride=ty.size, size=bv(1), readonly=True, table={(0, ty.width): [init.val if init.val is not None else 0]})
        if r is None: r = Region("@" + name, "struct", size=ty.size or None)
        self.globals[name] = r
        return r

    # ------------------------------------------------------------ vectors (libstdc++ layout: begin, end, cap)
    def make_vec(self, st, obj, off, name, stride, length, width=None, cap=None, **kw):
        r = self.new_array(st, name, stride, length, width, **kw)
        self.bind_vec(st, obj, off, r, length)
        return r
    def bind_vec(self, st, obj, off, r, length):
        length = bv(length) if isinstance(length, int) else length
        st.mem[(obj.id, off)] = Ptr(r); st.mem[(obj.id, off + 8)] = Ptr(r, lin_of(z3.simplify(length)).mul(r.stride))
        st.mem[(obj.id, off + 16)] = Ptr(r, Lin(0, ((r.stride, fresh(r.name + ".cap")),)))
        st.vecs[(obj.id, off)] = r
        self.wrote(("vec", obj.id, off))
    def vec(self, st, obj, off):
        """(region, array, length) of the vector at obj+off"""
        p = st.mem.get((obj.id, off))
        if not isinstance(p, Ptr) or p.r is None: raise Unsupported(f"vector at {obj}+{off} unknown")
        return p.r, self.arr(st, p.r) if p.r.stride in (1,2,4,8) else None, p.r.size

    # ------------------------------------------------------------ values
    def ev(self, st, v):
        k = v.kind
        if k in ("inst", "arg"):
            r = st.env.get(v.idx)
            if r is None: raise Unsupported(f"value {v} undefined")
            return r
        if k == "int":
            if v.ty.width == 1: return z3.BoolVal(bool(v.val))
            return bv(v.val, v.ty.width)
        if k == "null": return NULL
        if k == "zero":
            t = v.ty
            if t.kind == "pointer": return NULL
            return self.zero(t)
        if k in ("undef", "poison"):
            t = v.ty
            if t.kind == "int": return freshbool("undef") if t.width == 1 else fresh("undef", t.width)
            if t.kind == "struct": return Agg([None] * t.n)
            if t.kind == "pointer": return NULL
            return None
        if k == "global": return Ptr(self.global_region(v.name))
        if k == "function": return Ptr(Region("fn:" + v.name, "func"))
        if k == "constexpr":
            if v.op == "gep": return self.gep(st, v)
            if v.op in ("bitcast",): return self.ev(st, v.ops[0])
            raise Unsupported(f"constant expression {v.op}")
        if k == "fp": return ("fp", v)
        if k == "conststruct": return Agg([self.ev(st, o) for o in v.ops])
        raise Unsupported(f"operand kind {k}")
    def zero(self, t):
        if t.kind == "int": return z3.BoolVal(False) if t.width == 1 else bv(0, t.width)
        if t.kind == "struct": return Agg([self.zero(f) for f in t.fields])
        if t.kind == "pointer": return NULL
        if t.kind in ("double", "float"): return fresh("fp", t.size * 8)
        raise Unsupported(f"zero of {t}")

    def gep(self, st, i):
        p = self.ev(st, i.ops[0])
        if not isinstance(p, Ptr): raise Unsupported("gep on non-pointer")
        t = i.extra["srcty"]; off = Lin()
        for n, o in enumerate(i.ops[1:]):
            if n > 0 and t.kind == "struct":
                off = off.add(Lin(t.offsets[o.val])); t = t.fields[o.val]; continue
            if n > 0: t = t.elem
            e = self.ev(st, o)
            if e.size() < 64: e = z3.SignExt(64 - e.size(), e)
            off = off.add(lin_of(z3.simplify(e)).mul(t.size))
        return Ptr(p.r, p.o.add(off))

    def ptr2int(self, st, p):
        if p.r is None: return bv(0) if not p.o.t and p.o.c == 0 else p.o.bv()
        if p.o.t or p.o.c: return p.r.base + p.o.bv()
        return p.r.base + bv(0)

    def ptrcmp(self, st, pred, a, b):
        if a.r is b.r:
            x, y = a.o.bv(), b.o.bv()
            return self.icmp(pred, x, y)
        if pred in ("eq", "ne"):
            if a.r is None or b.r is None or True:
                return z3.BoolVal(pred == "ne")
        raise Unsupported("ordering of pointers into different objects")

    def icmp(self, pred, a, b):
        if z3.is_bool(a):
            if pred == "eq": return a == b
            if pred == "ne": return a != b
            a, b = b2bv(a), b2bv(b)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "ult": lambda: z3.ULT(a, b),
                "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b}[pred]()

    # ------------------------------------------------------------ exploration
    def fork(self, st): return st.copy()

    def explore(self, work, loop=None):
        """run work items (state, block, prev, idx); returns exits [(state, block, prev)] leaving `loop`"""
        exits = []
        while work:
            st, blk, prev, idx = work.pop()
            self.paths += 1
            if self.paths > self.MAXPATHS: raise Unsupported("too many paths")
            try:
                self.run_block(st, blk, prev, idx, work, loop, exits)
            except PathEnd: pass
        return exits

    def run_block(self, st, blk, prev, idx, work, loop, exits):
        while True:
            if idx == 0 and prev is not None:
                if loop is not None and blk not in loop.body:
                    exits.append((st, blk, prev)); return
                if loop is not None and blk is loop.header:
                    self.back_edge(st, blk, prev, loop); return
                if blk in self.loops:
                    for s2, b2, p2 in self.enter_loop(st, blk, prev):
                        if b2 is None: exits.append((s2, None, None)) if loop is not None else None
                        else: work.append((s2, b2, p2, 0))
                    return
                self.do_phis(st, blk, prev)
            insts = blk.insts; n = len(insts); i = idx
            nxt = None
            while i < n:
                ins = insts[i]; self.cur = ins
                op = ins.op
                if op == "phi": i += 1; continue
                if op == "ret":
                    self.need(st, *ins.ops)
                    rv = self.ev(st, ins.ops[0]) if ins.ops else None
                    self.at_return(st, rv); return
                if op == "br":
                    if not ins.ops: nxt = ins.extra["succ"][0]; break
                    self.need(st, *ins.ops)
                    c = self.ev(st, ins.ops[0]); a, b = ins.extra["succ"][0], ins.extra["succ"][1]
                    c = z3.simplify(c)
                    if z3.is_true(c): nxt = a; break
                    if z3.is_false(c): nxt = b; break
                    fa = self.feasible(st, c); fb = self.feasible(st, z3.Not(c))
                    if fa and fb:
                        s2 = st.copy(); s2.assume(z3.Not(c)); s2.trace += ((ins.line, False),)
                        work.append((s2, b, blk, 0))
                        st.assume(c); st.trace += ((ins.line, True),); nxt = a; break
                    if fa: st.assume(c); nxt = a; break
                    if fb: st.assume(z3.Not(c)); nxt = b; break
                    return   # infeasible path
                if op == "switch":
                    self.need(st, *ins.ops)
                    v = self.ev(st, ins.ops[0]); neg = []
                    for val, tgt in ins.extra["cases"]:
                        c = v == bv(val, v.size()); neg.append(z3.Not(c))
                        if self.feasible(st, c):
                            s2 = st.copy(); s2.assume(c); work.append((s2, tgt, blk, 0))
                    dc = z3.And(*neg) if neg else z3.BoolVal(True)
                    if not self.feasible(st, dc): return
                    st.assume(dc); nxt = ins.extra["default"]; break
                if op == "unreachable":
                    self.safety(st, "unreachable code is not reached", z3.BoolVal(False)); return
                if op in ("call", "invoke"):
                    self.need(st, *ins.ops)
                    res = self.call(st, ins)
                    if isinstance(res, list):   # forks: [(state, ret)]
                        if not res: return
                        for s2, rv in res[1:]:
                            if ins.ty.kind != "void": s2.env[ins.idx] = rv
                            if op == "invoke": work.append((s2, ins.extra["normal"], blk, 0))
                            else: work.append((s2, blk, None, i + 1))
                        st, rv = res[0]
                        if ins.ty.kind != "void": st.env[ins.idx] = rv
                    elif ins.ty.kind != "void": st.env[ins.idx] = res
                    if op == "invoke": nxt = ins.extra["normal"]; break
                    i += 1; continue
                if op == "select":
                    self.need(st, ins.ops[0])
                    c = z3.simplify(self.ev(st, ins.ops[0]))
                    oks = [(l, z3.Implies(c, g)) for l, g in (self.okof(st, ins.ops[1]) or ())] + [(l, z3.Implies(z3.Not(c), g)) for l, g in (self.okof(st, ins.ops[2]) or ())]
                    if oks: st.poison[ins.idx] = oks
                    else: st.poison.pop(ins.idx, None)
                    if z3.is_true(c) or z3.is_false(c):
                        st.env[ins.idx] = self.ev(st, ins.ops[1 if z3.is_true(c) else 2]); i += 1; continue
                    a, b = ins.ops[1], ins.ops[2]
                    # operands may be poison on the unselected side; values evaluated eagerly are total in our encoding
                    a, b = self.ev(st, a), self.ev(st, b)
                    if isinstance(a, Ptr):
                        if a.r is b.r and a.r is not None and a.r.kind != "struct":
                            sd = a.r.stride
                            da, db = a.o.div(sd), b.o.div(sd)
                            if da and db and da[1] == db[1]:
                                st.env[ins.idx] = Ptr(a.r, Lin(da[1]).add(lin_of(z3.simplify(z3.If(c, da[0].bv(), db[0].bv()))).mul(sd))); i += 1; continue
                        s2 = st.copy(); s2.assume(z3.Not(c)); s2.env[ins.idx] = b; s2.trace += ((ins.line, False),)
                        if self.feasible(st, z3.Not(c)): work.append((s2, blk, None, i + 1))
                        if not self.feasible(st, c): return
                        st.assume(c); st.env[ins.idx] = a; i += 1; continue
                    if isinstance(a, Agg): raise Unsupported("select on aggregate")
                    st.env[ins.idx] = z3.If(c, a, b); i += 1; continue
                self.inst(st, ins)
                i += 1
            if nxt is None: raise Unsupported(f"fell off block {blk}")
            prev, blk, idx = blk, nxt, 0

    def do_phis(self, st, blk, prev):
        new = {}; ok = {}
        for ins in blk.insts:
            if ins.op != "phi": break
            for b, v in ins.extra["inc"]:
                if b is prev: new[ins.idx] = self.ev(st, v); ok[ins.idx] = self.okof(st, v); break
            else: raise Unsupported(f"phi without incoming {prev}")
        loophead = blk in self.loops
        for i, c in ok.items():
            if c and loophead:
                for l, g in c: self.safety(st, l, g)
                st.poison.pop(i, None)
            elif c: st.poison[i] = c
            else: st.poison.pop(i, None)
        st.env.update(new)

    # ---- loops
    def loop_spec(self, blk):
        """contract for this loop: by position among the function's loops"""
        order = [h for h in self.loops]
        n = order.index(blk)
        ls = self.spec.loops
        if callable(ls): return ls(self, blk, n)
        if n < len(ls): return ls[n]
        return None

    def phi_binds(self, st, blk, vals):
        out = {}; used = {}
        for ins in blk.insts:
            if ins.op != "phi": break
            base = ins.name or "phi"
            base = re.sub(r"(\.(i\d*|\d+|coerce|sroa|ph))+$", "", base); base = re.sub(r"(?<=[a-zA-Z_])\d+$", "", base) or base
            base = re.sub(r"\.sroa\.\d+.*$|\.i\d*(\.|$).*", "", base)
            if base in used:
                used[base] += 1; base = f"{base}#{used[base]}"
            else: used[base] = 1
            out[base] = vals[ins.idx]
        for k, v in self.local_scalars(st).items():
            nm = re.sub(r"\.i\d*$|\.addr$", "", self.locals[k[0]].name)
            if k[1] == 0 and nm not in out: out[nm] = v
        m = self.binding.get(blk)
        if m: out = {**out, **{role: (st.mem[i] if isinstance(i, tuple) else vals[i]) for role, i in m.items()}}
        return out
    def local_scalars(self, st):
        """scalar local variables that live in memory (their address is taken)"""
        return {k: v for k, v in st.mem.items() if k[0] in self.locals and len(k) == 2 and (z3.is_bv(v) or z3.is_bool(v))}

    def enter_loop(self, st, blk, prev):
        self.do_phis(st, blk, prev)
        ls = self.loop_spec(blk)
        phis = [i for i in blk.insts if i.op == "phi"]
        # concrete unrolling when asked for (bounded by construction: each iteration's exit test is concrete or proved)
        if ls is not None and getattr(ls, "unroll", None):
            return self.unroll(st, blk, ls)
        if ls is None: raise Unsupported(f"no loop contract for loop at line {phis[0].line if phis else self.cur.line} of {self.fname}")
        entry = st
        vals0 = {p.idx: st.env[p.idx] for p in phis}
        tag = ls.name
        L0 = LoopView(self, st, self.pre, self.phi_binds(st, blk, vals0), None); L0.blk = blk
        L0.e = L0
        if ls.roles: L0 = self.bind_roles(st, blk, ls, vals0, L0)
        if ls.setup: ls.setup(L0)
        for it in ls.inv(L0): self.oblige_item(st, f"{tag}: invariant holds on entry: ", it)
        body = self.loops[blk]
        written = set()
        for attempt in range(12):
            ctx = LoopCtx(blk, body); ctx.written = set(written); ctx.ls = ls; ctx.entry = L0
            mark = len(self.buf); save_rets = list(self.rets); ptr0 = self.lctx; born = Region.n
            s2 = st.copy()
            self.havoc(s2, phis, vals0, written)
            vals = {p.idx: s2.env[p.idx] for p in phis}
            Lh = LoopView(self, s2, self.pre, self.phi_binds(s2, blk, vals), L0); Lh.e = L0; Lh.blk = blk
            if ls.forget:
                new = s2.hyps[len(st.hyps):]; s2.hyps = list(self.pre.hyps) + new; s2.terms = {k: dict(v) for k, v in self.pre.terms.items()}
            for it in ls.inv(Lh): s2.assume(it[1])
            if ls.terms: ls.terms(Lh)
            ctx.head = Lh; ctx.dec = ls.dec(Lh) if ls.dec else None
            if ls.dec is None: self.P.noterm = getattr(self.P, "noterm", []) + [f"{self.fname}/{tag}"]
            Lh.st = s2.copy()
            self.lctx = self.lctx + [ctx]
            first = next(i for i, x in enumerate(blk.insts) if x.op != "phi")
            exits = self.explore([(s2, blk, None, first)], ctx)
            self.lctx = ptr0
            # storage created inside the iteration is not part of the frame (it is reachable only through re-bound vectors)
            ctx.written = {k for k in ctx.written if k[0] == 'ghost' or (k[1] if k[0] == 'vec' else k[0]) <= born}
            if ctx.written <= written: break
            # discovered new writes: redo with a larger havoc set
            written |= ctx.written
            del self.buf[mark:]; self.rets = save_rets
        else: raise Unsupported("loop frame did not stabilise")
        for c in self.lctx: c.written |= written
        if ls.after:
            for x in exits: ls.after(x[0], Lh)
        return exits

    def unique(self, st, e, ms=1500):
        """the only value of e on this path, if there is just one"""
        from .solve import ground
        s = z3.SolverFor("QF_AUFBV"); lim(s, ms)
        for a in ground(st.hyps, st.terms): s.add(a)
        if s.check() != z3.sat: return None
        v = s.model().eval(e, model_completion=True)
        s.add(e != v)
        return v.as_long() if s.check() == z3.unsat else None
    def quick(self, st, goal, ms=1500):
        from .solve import ground
        core, inst = ground(st.hyps, st.terms, goal, split=True); s = z3.SolverFor("QF_AUFBV"); lim(s, 500); s.add(core)
        if s.check() == z3.unsat: return True
        s = z3.SolverFor("QF_AUFBV"); lim(s, ms); s.add(core); s.add(inst)
        return s.check() == z3.unsat
    def bind_roles(self, st, blk, ls, vals0, L0):
        """loop-role binding: by source name when it is there, else the first type-correct assignment for which the invariant holds on entry"""
        def ok(v, t): return z3.is_bool(v) if t == "bool" else (z3.is_bv(v) and v.size() == t if isinstance(t, int) else isinstance(v, Ptr) and v.r is not None and v.r.name == t)
        if all(r in L0.binds and ok(L0.binds[r], t) for r, t in ls.roles.items()): return L0
        named = {r for r, t in ls.roles.items() if r in L0.binds and ok(L0.binds[r], t)}
        miss = [r for r in ls.roles if r not in named]
        taken = {id(L0.binds[r]) for r in named}
        vals0 = {**vals0, **self.local_scalars(st)}
        cands = [[i for i, v in vals0.items() if ok(v, ls.roles[r]) and not any(v is L0.binds[q] for q in named)] for r in miss]
        best = None
        for combo in itertools.product(*cands):
            if len(set(combo)) != len(combo): continue
            self.binding = {**self.binding, blk: dict(zip(miss, combo))}
            L = LoopView(self, st, self.pre, self.phi_binds(st, blk, vals0), None); L.blk = blk; L.e = L
            if best is None: best = dict(self.binding[blk])
            try:
                s2 = st.copy(); L.st = s2
                if ls.setup: ls.setup(L)
                if all(self.quick(s2, g) for g in [x[1] for x in ls.inv(L)]): L.st = st; return L
            except Unsupported: pass
        if best is None: raise Unsupported(f"loop roles {miss} of {ls.name} cannot be bound")
        self.binding = {**self.binding, blk: best}
        L = LoopView(self, st, self.pre, self.phi_binds(st, blk, vals0), None); L.blk = blk; L.e = L
        return L

    def havoc(self, st, phis, vals0, written):
        for p in phis:
            v = vals0[p.idx]; nm = (p.name or "phi")
            if isinstance(v, Ptr):
                if v.r is None: raise Unsupported("null loop pointer")
                if v.r.kind == "struct":
                    q = self.whole_inline(v)
                    if q is v or (q.o.c % q.r.stride) or any(k % q.r.stride for k, e in v.o.t): raise Unsupported("loop pointer into object")
                    k = fresh(nm + ".ix"); st.env[p.idx] = Ptr(v.r, Lin(v.o.c - q.o.c, ((q.r.stride, k),))); continue
                rem = v.o.c % v.r.stride if not any(k % v.r.stride for k, e in v.o.t) else 0
                k = fresh(nm + ".ix"); st.env[p.idx] = Ptr(v.r, Lin(rem, ((v.r.stride, k),)))
            elif isinstance(v, Agg) : raise Unsupported("aggregate phi")
            elif z3.is_bool(v): st.env[p.idx] = freshbool(nm)
            else: st.env[p.idx] = fresh(nm, v.size())
        vecs = [k for k in written if k[0] == "vec"]
        skip = set()
        for (_, oid, off) in vecs:
            old = st.vecs.get((oid, off))
            if old is None: continue
            n = fresh(old.name + ".len")
            r = Region(old.name, "array", stride=old.stride, size=n, kinds=old.kinds, subs=old.subs)
            for k, a in list(st.mem.items()):
                if k[0] == old.id and len(k) == 3: st.mem[(r.id,) + k[1:]] = fresh_arr(old.name, k[2])
            st.mem[(oid, off)] = Ptr(r); st.mem[(oid, off + 8)] = Ptr(r, Lin(0, ((r.stride, n),)))
            st.mem[(oid, off + 16)] = Ptr(r, Lin(0, ((r.stride, fresh(r.name + ".cap")),)))
            st.vecs[(oid, off)] = r; st.dead.add(old.id)
            st.assume(z3.ULT(n, bv(1 << 57)))
            skip |= {(oid, off), (oid, off + 8), (oid, off + 16)}
        for k in written:
            if k in skip or k[0] == "vec": continue
            if k[0] == "ghost":
                g = st.ghost.get(k[1])
                if z3.is_expr(g): st.ghost[k[1]] = z3.FreshConst(g.sort(), str(k[1]))
                continue
            v = st.mem.get(k)
            if v is None: continue
            if len(k) == 3: st.mem[k] = fresh_arr("h", k[2])
            elif isinstance(v, Ptr):
                if v.r is None or v.r.kind == "struct": raise Unsupported(f"loop modifies pointer cell {k}")
                st.mem[k] = Ptr(v.r, Lin(0, ((v.r.stride, fresh("pc.ix")),)))
            elif z3.is_bool(v): st.mem[k] = freshbool("h")
            else: st.mem[k] = fresh("h", v.size())

    def back_edge(self, st, blk, prev, ctx):
        self.do_phis(st, blk, prev)
        phis = [i for i in blk.insts if i.op == "phi"]
        vals = {p.idx: st.env[p.idx] for p in phis}
        L = LoopView(self, st, self.pre, self.phi_binds(st, blk, vals), ctx.entry); L.e = ctx.entry; L.blk = blk; L.h = ctx.head
        ls = ctx.ls
        if ls.step: ls.step(L, ctx.head)
        for it in ls.inv(L): self.oblige_item(st, f"{ls.name}: invariant preserved: ", it)
        if ctx.dec is not None:
            d = ls.dec(L)
            if isinstance(d, (tuple, list)):
                # lexicographic
                g = z3.BoolVal(False)
                for new, old in reversed(list(zip(d, ctx.dec))): g = z3.Or(z3.ULT(new, old), z3.And(new == old, g))
                self.oblige(st, f"{ls.name}: variant decreases (termination)", g)
            else: self.oblige(st, f"{ls.name}: variant decreases (termination)", z3.ULT(d, ctx.dec))

    def unroll(self, st, blk, ls):
        """explicit unrolling to a proved bound: exceeding it is an obligation"""
        body = self.loops[blk]; out = []
        class U: pass
        u = LoopCtx(blk, body); u.unroll = True
        states = [st]
        for it in range(ls.unroll + 1):
            nxt = []
            for s in states:
                first = next(i for i, x in enumerate(blk.insts) if x.op != "phi")
                uc = UnrollCtx(blk, body); uc.back = nxt
                self.paths += 1
                if self.paths > self.MAXPATHS: raise Unsupported("too many paths")
                out += self.explore_unroll([(s, blk, None, first)], uc)
            if not nxt: return out
            states = nxt
        for s in states: self.oblige(s, f"{ls.name}: at most {ls.unroll} iterations", z3.BoolVal(False))
        return out
    def explore_unroll(self, work, uc):
        return self.explore(work, uc)

    # ------------------------------------------------------------ instructions
    def inst(self, st, i):
        self.pend = []
        op = i.op
        if op in ("load", "store", "udiv", "urem", "sdiv", "srem"): self.need(st, *i.ops)
        else:
            for o in i.ops:
                c = self.okof(st, o)
                if c: self.pend += c
        self.inst_(st, i)
        if self.pend: st.poison[i.idx] = self.pend
        else: st.poison.pop(i.idx, None)

    def inst_(self, st, i):
        op = i.op
        if op == "gep": st.env[i.idx] = self.gep(st, i); return
        if op == "load":
            p = self.ev(st, i.ops[0])
            if not isinstance(p, Ptr): raise Unsupported("load from integer address")
            if i.ty.kind in ("struct", "array", "vector"): raise Unsupported("aggregate load")
            st.env[i.idx] = self.load(st, p, i.ty, "read"); return
        if op == "store":
            v = self.ev(st, i.ops[0]); p = self.ev(st, i.ops[1])
            if not isinstance(p, Ptr): raise Unsupported("store to integer address")
            self.store(st, p, v, i.ops[0].ty, "write"); return
        if op == "alloca":
            t = i.extra["ty"]
            if t.kind == "array" and t.elem.kind in ("int",):
                r = Region(i.name or "local", "array", stride=t.elem.size, size=bv(t.n))
            else: r = Region(i.name or "local", "struct", size=t.size)
            r.local = True; st.env[i.idx] = Ptr(r); self.locals[r.id] = r; return
        if op == "icmp":
            a, b = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            if isinstance(a, Ptr) or isinstance(b, Ptr): st.env[i.idx] = self.ptrcmp(st, i.extra["pred"], a, b)
            else: st.env[i.idx] = self.icmp(i.extra["pred"], a, b)
            return
        if op in ("zext", "sext", "trunc"):
            a = self.ev(st, i.ops[0]); w = i.ty.width
            if op == "trunc":
                r = z3.Extract(0, 0, a) == 1 if w == 1 else z3.Extract(w - 1, 0, a)
            elif z3.is_bool(a): r = z3.If(a, bv(1 if op == "zext" else (1 << w) - 1, w), bv(0, w))
            else: r = z3.ZeroExt(w - a.size(), a) if op == "zext" else z3.SignExt(w - a.size(), a)
            r = self.rw(st, r)
            st.env[i.idx] = r; return
        if op in ("bitcast", "freeze", "addrspacecast"): st.env[i.idx] = self.ev(st, i.ops[0]); return
        if op == "ptrtoint": st.env[i.idx] = self.ptr2int(st, self.ev(st, i.ops[0])); return
        if op == "inttoptr": raise Unsupported("inttoptr")
        if op == "extractvalue":
            v = self.ev(st, i.ops[0])
            for k in i.extra["idx"]: v = v[k]
            st.env[i.idx] = v; return
        if op == "insertvalue":
            v = self.ev(st, i.ops[0]); x = self.ev(st, i.ops[1]); k = i.extra["idx"]
            if len(k) != 1: raise Unsupported("nested insertvalue")
            l = list(v); l[k[0]] = x; st.env[i.idx] = Agg(l); return
        if op in BIN:
            a, b = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            st.env[i.idx] = self.binop(st, i, op, a, b); return
        if op in ("fadd","fsub","fmul","fdiv","fptoui","fptosi","uitofp","sitofp","fptrunc","fpext","fneg","fcmp"):
            st.env[i.idx] = self.fpop(st, i)
            self.P.fp = True
            return
        raise Unsupported(f"instruction {op}")

    # floating point: values that are an integer below 2^48, or such an integer divided by a small constant, are tracked exactly;
    # for those, x/c is correctly rounded and its ceiling/floor/truncation equals that of the rational (distance of x/c from an integer >= 1/c, error < 2^-5/c)
    def fptag(self, e, t): self.fptags[e.get_id()] = (e, t); return e
    def fpget(self, e):
        if isinstance(e, tuple):
            v = e[1].val
            return (bv(int(v)), 1) if v is not None and v == int(v) and 0 <= v < (1 << 48) else None
        t = self.fptags.get(e.get_id()) if z3.is_expr(e) else None
        return t[1] if t else None
    def fpop(self, st, i):
        a = [self.ev(st, o) for o in i.ops]
        if i.ty.kind == "int":
            out = freshbool("fp") if i.ty.width == 1 else fresh("fp", i.ty.width)
            if i.op in ("fptoui", "fptosi"):
                t = self.fpget(a[0])
                if t is not None and i.ty.width == 64: return self.fpround(st, t, False)
            return out
        out = fresh("fp", i.ty.size * 8)
        if i.op in ("uitofp", "sitofp") and i.ty.size == 8:
            x = a[0] if not z3.is_bool(a[0]) else b2bv(a[0], 8)
            lim = z3.ULT(x, bv(1 << 48)) if x.size() == 64 else (z3.BoolVal(True) if i.op == "uitofp" else x >= 0)
            if self.quick(st, lim): self.fptag(out, (x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x), 1))
        elif i.op == "fdiv" and i.ty.size == 8:
            n, d = self.fpget(a[0]), self.fpget(a[1])
            if n is not None and d is not None and conc(d[0]) and d[1] == 1 and n[1] == 1 and conc(d[0]) < (1 << 16): self.fptag(out, (n[0], conc(d[0])))
        return out
    def fpcall(self, st, ins, up):
        t = self.fpget(self.ev(st, ins.ops[0])); out = fresh("fp", ins.ty.size * 8)
        if t is not None: self.fptag(out, (self.fpround(st, t, up), 1))
        return out
    def fpround(self, st, t, up):
        x, c = t
        if c == 1: return x
        h = getattr(self.spec, "ceil", None)
        if h is not None and up:
            q = h(self, st, x, c)
            if q is not None: return q
        q = fresh("q"); r = fresh("r")
        st.assume(x == q * bv(c) + r if not up else x + r == q * bv(c), z3.ULT(r, bv(c)), z3.ULE(q, bv((1 << 48) // c + 1)))
        return q
    def binop(self, st, i, op, a, b):
        if z3.is_bool(a):
            if op == "and": return z3.And(a, b)
            if op == "or": return z3.Or(a, b)
            if op == "xor": return z3.Xor(a, b)
            raise Unsupported(f"i1 {op}")
        w = a.size()
        ex = i.extra or {}
        if op == "sub":
            # pointer differences: (base+x)-(base+y)
            r = z3.simplify(a - b) if _hasbase(a) else a - b
            res = r
        elif op == "add": res = a + b
        elif op == "mul":
            res = self.spec.mul(self, st, a, b) if getattr(self.spec, "mul", None) is not None else None
            if res is None: res = a * b
        elif op == "and": res = a & b
        elif op == "or": res = a | b
        elif op == "xor": res = a ^ b
        elif op in ("shl", "lshr", "ashr"):
            self.pend_ok("shift amount below width", z3.ULT(b, bv(w, w)))
            res = a << b if op == "shl" else (z3.LShR(a, b) if op == "lshr" else a >> b)
        elif op in ("udiv", "urem", "sdiv", "srem"):
            self.safety(st, "division by zero", b != 0)
            c = conc(b)
            hook = getattr(self.spec, "div", None); res = hook(self, st, op, a, b) if hook is not None else None
            if res is not None: pass
            elif op in ("udiv", "urem") and c and c & (c - 1) == 0:
                k = c.bit_length() - 1
                res = (z3.LShR(a, bv(k, w)) if op == "udiv" else a & bv(c - 1, w))
            elif op == "sdiv" and ex.get("exact") and c and 0 < c < 4096:
                l = lin_of(a) if w == 64 else None
                d = l.div(c) if l is not None else None
                if d is not None and d[1] == 0 and l.t:
                    # exact division of a sum of multiples: equal to the quotient when it does not wrap
                    q = d[0].bv(); lim = 1 << 60 if c <= 8 and c & (c - 1) == 0 else (1 << 62) // c
                    self.safety(st, "pointer difference within range", z3.And(q < bv(lim), q > bv(-lim & ((1 << 64) - 1))))
                    res = q
                elif c & (c - 1): res = a / b
                else: res = a >> bv(c.bit_length() - 1, w)
            else: res = {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b)
        else: raise Unsupported(op)
        if ex.get("nsw") and op in ("add", "sub", "mul") and self.nsw:
            ca, cb = conc(a), conc(b)
            if op == "mul" and ca is not None: ca, cb, a, b = cb, ca, b, a
            if op == "mul" and cb is not None and 1 < cb < 1 << (w - 1):      # by a constant: a range check
                self.pend_ok(f"signed {op} does not overflow", z3.And(a <= bv(((1 << (w - 1)) - 1) // cb, w), a >= bv(-((1 << (w - 1)) // cb), w))); return res
            ok = {"add": lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                  "sub": lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                  "mul": lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]()
            self.pend_ok(f"signed {op} does not overflow", ok)
        return res

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        cv = ins.extra["callee"]
        name = cv.name if cv.kind in ("function", "alias") else None
        if name is None: raise Unsupported("indirect call")
        if name.startswith("llvm."): return self.intrinsic(st, ins, name)
        d = self.dem.get(name) or name
        if d in ("ceil", "floor", "std::ceil(double)", "std::floor(double)"): return self.fpcall(st, ins, "ceil" in d)
        for rx, fn in self.models:
            if rx.search(d):
                self.used_models.setdefault(getattr(fn, "label", fn.__name__), d)
                args = [self.ev(st, a) for a in ins.ops]
                return fn(self, st, ins, args)
        raise Unsupported(f"call to {d} without contract")

    def intrinsic(self, st, ins, n):
        a = lambda k: self.ev(st, ins.ops[k])
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.stack", "llvm.prefetch")): return None
        if n.startswith("llvm.assume"): st.assume(a(0)); return None
        if n.startswith("llvm.expect"): return a(0)
        if n.startswith("llvm.trap"): self.safety(st, "trap reached", z3.BoolVal(False)); return []
        if n.startswith("llvm.umax"): x, y = a(0), a(1); return z3.If(z3.UGT(x, y), x, y)
        if n.startswith("llvm.umin"): x, y = a(0), a(1); return z3.If(z3.ULT(x, y), x, y)
        if n.startswith("llvm.smax"): x, y = a(0), a(1); return z3.If(x > y, x, y)
        if n.startswith("llvm.smin"): x, y = a(0), a(1); return z3.If(x < y, x, y)
        if n.startswith("llvm.ctpop"):
            x = a(0); w = x.size(); return sum((z3.ZeroExt(w - 1, z3.Extract(k, k, x)) for k in range(1, w)), z3.ZeroExt(w - 1, z3.Extract(0, 0, x)))
        if n.startswith("llvm.ctlz") or n.startswith("llvm.cttz"):
            x = a(0); w = x.size(); r = bv(w, w)
            rng = range(w) if "ctlz" in n else reversed(range(w))
            for k in rng: r = z3.If(z3.Extract(k, k, x) == 1, bv(w - 1 - k if "ctlz" in n else k, w), r)
            return r
        if n.startswith("llvm.bswap"):
            x = a(0); return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(x.size() // 8)])
        if n.startswith(("llvm.fshl", "llvm.fshr")):
            x, y, s = a(0), a(1), a(2); w = x.size(); s = z3.URem(s, bv(w, w))
            c = z3.Concat(x, y); s2 = z3.ZeroExt(w, s)
            return z3.Extract(2 * w - 1, w, c << s2) if "fshl" in n else z3.Extract(w - 1, 0, z3.LShR(c, s2))
        if n.startswith("llvm.x86.mmx.") or n.startswith("llvm.x86.sse2."):
            return self.x86(st, ins, n)
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): return self.memop(st, ins, n)
        if n.startswith(("llvm.ceil", "llvm.floor")): return self.fpcall(st, ins, "ceil" in n)
        if n.startswith("llvm.fabs") or n.startswith("llvm.fmuladd"): return fresh("fp", ins.ty.size * 8)
        raise Unsupported(f"intrinsic {n}")

    def x86(self, st, ins, n):
        a = lambda k: self.ev(st, ins.ops[k])
        m = re.match(r"llvm\.x86\.mmx\.(psll|psrl|psra)i?\.([wdq])", n)
        if m:
            x, s = a(0), a(1); w = {"w": 16, "d": 32, "q": 64}[m.group(2)]; c = conc(s)
            if c is None: raise Unsupported("variable mmx shift")
            lanes = [z3.Extract(k * w + w - 1, k * w, x) for k in range(64 // w)]
            f = {"psll": lambda v: v << bv(c, w) if c < w else bv(0, w), "psrl": lambda v: z3.LShR(v, bv(c, w)) if c < w else bv(0, w), "psra": lambda v: v >> bv(min(c, w - 1), w)}[m.group(1)]
            lanes = [f(v) for v in lanes]
            return z3.Concat(*reversed(lanes)) if len(lanes) > 1 else lanes[0]
        m = re.match(r"llvm\.x86\.mmx\.(por|pand|pxor|pandn)$", n)
        if m:
            x, y = a(0), a(1)
            return {"por": x | y, "pand": x & y, "pxor": x ^ y, "pandn": ~x & y}[m.group(1)]
        raise Unsupported(n)

    def whole_inline(self, p):
        """a pointer into a member array as a pointer into that array"""
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == "struct":
            for s0, nb, rr in p.r.inline:
                if s0 <= p.o.c < s0 + nb: return Ptr(rr, Lin(p.o.c - s0, p.o.t))
        return p
    def memop(self, st, ins, n):
        d = self.whole_inline(self.ev(st, ins.ops[0])); ln = self.ev(st, ins.ops[2]); c = conc(ln)
        if n.startswith("llvm.memset"):
            v = self.ev(st, ins.ops[1])
            if d.r is None:
                self.safety(st, "memset null", ln == 0); return None
            if d.r.kind == "struct" and c is not None:
                o = d.o.const(); b = conc(v)
                if o is None or b is None: raise Unsupported("memset")
                for k in [k for k in st.mem if k[0] == d.r.id and isinstance(k[1], int) and len(k) == 2 and o <= k[1] < o + c]: del st.mem[k]
                word = int.from_bytes(bytes([b]) * 8, "little"); k = o
                while k < o + c:
                    s = 8 if k % 8 == 0 and k + 8 <= o + c else (4 if k % 4 == 0 and k + 4 <= o + c else 1)
                    st.mem[(d.r.id, k)] = bv(word & ((1 << 8 * s) - 1), 8 * s); self.wrote((d.r.id, k)); k += s
                return None
            if d.r.kind == "array":
                return self.fill_array(st, d, ln, v)
            raise Unsupported("memset")
        s = self.ev(st, ins.ops[1])
        if c == 0: return None
        if s.r is not None and d.r is not None and s.r.kind == "struct" and d.r.kind == "struct" and c is not None:
            so, do = s.o.const(), d.o.const()
            items = [(k[1], v) for k, v in st.mem.items() if k[0] == s.r.id and len(k) == 2 and isinstance(k[1], int) and so <= k[1] < so + c]
            for k in [k for k in st.mem if k[0] == d.r.id and isinstance(k[1], int) and len(k) == 2 and do <= k[1] < do + c]: del st.mem[k]
            for k, v in items: st.mem[(d.r.id, k - so + do)] = v; self.wrote((d.r.id, k - so + do))
            return None
        if s.r is not None and d.r is not None and {s.r.kind, d.r.kind} == {"array", "struct"} and c is not None:      # one element of several fields
            a, o = (s, d) if s.r.kind == "array" else (d, s)
            if c == a.r.stride and not a.r.subs:
                fs = sorted(k[1:] for k in st.mem if k[0] == a.r.id and len(k) == 3 and isinstance(k[1], int)); oo = o.o.const()
                if oo is not None and fs and sum(w for _, w in fs) == 8 * c and not any(isinstance(st.mem.get((o.r.id, oo + f)), Ptr) for f, _ in fs):
                    for f, w in fs:
                        T = type("T", (), dict(kind="int", width=w, size=w // 8))
                        self.store(st, d.plus(f), self.load(st, s.plus(f), T, "element copy"), T, "element copy")
                    return None
        if s.r is not None and d.r is not None and s.r.kind == "array" and d.r.kind == "array":
            return self.copy_array(st, d, s, ln, overlap="memmove" in n)
        if d.r is None or s.r is None:
            self.safety(st, "memcpy with null", ln == 0); return None
        raise Unsupported(f"{n} {d} {s}")

    def elems(self, st, r, ln, what):
        l = lin_of(z3.simplify(ln)); d = l.div(r.stride)
        if d is None or d[1]: raise Unsupported(f"{what}: length not a multiple of element size")
        return d[0].bv()
    def idx_of(self, st, p):
        d = p.o.div(p.r.stride)
        if d is None or d[1]: raise Unsupported("unaligned block operation")
        return d[0].bv()
    def copy_array(self, st, d, s, ln, overlap=False):
        if d.r.stride != s.r.stride: raise Unsupported("copy between different strides")
        n = self.elems(st, d.r, ln, "copy"); di, si = self.idx_of(st, d), self.idx_of(st, s)
        for r, i, w in ((d.r, di, "destination"), (s.r, si, "source")):
            self.safety(st, f"block copy {w} in bounds", z3.Or(n == 0, z3.And(z3.ULE(i, r.size), z3.ULE(n, r.size - i))))
        w = d.r.stride * 8
        old = self.arr(st, d.r); src = self.arr(st, s.r); new = fresh_arr(d.r.name, w)
        st.assume(Forall(lambda k: z3.Select(new, k) == z3.If(z3.And(z3.UGE(k, di), z3.ULT(k - di, n)), z3.Select(src, k - di + si), z3.Select(old, k)), "idx"))
        st.term("idx", di); st.term("idx", si)
        self.set_arr(st, d.r, new)
        return None
    def fill_array(self, st, d, ln, v):
        n = self.elems(st, d.r, ln, "fill"); di = self.idx_of(st, d); w = d.r.stride * 8
        self.safety(st, "block fill in bounds", z3.Or(n == 0, z3.And(z3.ULE(di, d.r.size), z3.ULE(n, d.r.size - di))))
        old = self.arr(st, d.r); new = fresh_arr(d.r.name, w)
        if v.size() < w:
            v = z3.Concat(*[v] * (w // v.size()))
        st.assume(Forall(lambda k: z3.Select(new, k) == z3.If(z3.And(z3.UGE(k, di), z3.ULT(k - di, n)), v, z3.Select(old, k)), "idx"))
        st.term("idx", di)
        self.set_arr(st, d.r, new)
        return None

    # ------------------------------------------------------------ whole function
    def at_return(self, st, rv):
        self.rets.append((st, rv))
        n = 0
        for item in self.spec.ensures(self, self.pre, st, rv):
            self.oblige_item(st, "ensures: ", item); n += 1

    def verify(self):
        st = State(); self.cur = None
        self.binding = getattr(self.spec, "binding", {}) or {}
        args = self.spec.requires(self, st)
        if len(args) != len(self.F.params): raise Unsupported(f"{self.fname}: contract has {len(args)} arguments, code has {len(self.F.params)}")
        for p, a in zip(self.F.params, args):
            if p.ty.kind == "int" and p.ty.width == 1 and z3.is_bv(a): a = z3.Extract(0, 0, a) == 1
            st.env[p.idx] = a
        self.pre = st.copy()
        self.explore([(st, self.F.blocks[0], None, 0)], None)
        obs = self.buf
        if not self.rets and not getattr(self.spec, "noreturn", False):
            raise Unsupported(f"{self.fname}: no path reaches the end of the function")
        # vacuity guards: precondition and some return state must be satisfiable
        self.covers = [("precondition satisfiable", list(self.pre.hyps), {k: dict(v) for k, v in self.pre.terms.items()})]
        self.ret_covers = [list(s.hyps) for s, _ in self.rets]
        self.ret_terms = [{k: dict(v) for k, v in s.terms.items()} for s, _ in self.rets]
        return obs

class UnrollCtx(LoopCtx):
    pass
_orig_back = Exec.back_edge
def _back(self, st, blk, prev, ctx):
    if isinstance(ctx, UnrollCtx):
        self.do_phis(st, blk, prev); ctx.back.append(st); return
    return _orig_back(self, st, blk, prev, ctx)
Exec.back_edge = _back

class PathEnd(Exception): pass

BIN = {"add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"}

def _hasbase(e):
    return z3.is_app(e) and e.num_args() > 0 and any(z3.is_const(c) and c.decl().name().startswith("&") for c in e.children())

class Loop:
    """loop contract"""
    def __init__(self, name, inv=None, dec=None, setup=None, unroll=None, terms=None, step=None, after=None, roles=None, forget=False):
        self.name = name; self.inv = inv; self.dec = dec; self.setup = setup; self.unroll = unroll; self.terms = terms; self.step = step; self.after = after; self.roles = roles; self.forget = forget

class Spec:
    """function contract"""
    def __init__(self, fn, requires, ensures, loops=(), models=(), title=None, binding=None, group=None, mul=None, div=None, ceil=None):
        self.fn = fn; self.requires = requires; self.ensures = ensures; self.loops = loops; self.models = list(models); self.title = title or fn
        self.binding = binding; self.group = group; self.mul = mul; self.div = div; self.ceil = ceil
