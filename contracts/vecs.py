"""Trusted contracts of std::vector members that stay calls in the extracted code (libstdc++ layout {begin,end,cap}).
Every reallocation/resize yields fresh storage; the old storage counts as released."""
import re
from contracts.common import *

VEC = r"^std::vector<(?!bool)[^()]*>::"
KEEP_VEC = [VEC + r"(resize|assign|push_back|emplace_back|reserve|shrink_to_fit|insert|erase|vector|~vector|operator=|pop_back|clear|swap|_M_\w+)(<.*>)?\(", r"^[^()]*[&*d] std::vector<(?!bool)[^()]*>::emplace_back<"]
SIZES = {"unsigned char": 1, "char": 1, "signed char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "long long": 8, "unsigned long": 8, "unsigned long long": 8,
         "double": 8, "float": 4}
CAP = bv(1 << 57)

def elem_type(d):
    """element type text of std::vector<T, ...>::..."""
    i = (d.index("& std::vector<") + 2 if "& std::vector<" in d else d.index("std::vector<")) + 12; n = 0; out = ""
    for c in d[i:]:
        if c == "<": n += 1
        if c == ">":
            if n == 0: break
            n -= 1
        if c == "," and n == 0: break
        out += c
    return out.strip()

class VecLib:
    """sizes: extra element sizes {type text: (bytes, fields [(offset, width)])}; names: {struct offset: region name}"""
    def __init__(self, sizes=None, name=None, limit=True, kinds=None):
        self.sizes = dict(sizes or {}); self.name = name; self.limit = limit; self.kinds = kinds
    def layout(self, d):
        t = elem_type(d)
        if t in self.sizes: return self.sizes[t]
        if t.endswith("*"): return 8, [(0, 64)]
        if t not in SIZES: raise Unsupported(f"vector of unknown element type {t}")
        n = SIZES[t]; return n, [(0, 8 * n)]
    def cur(self, st, p):
        r = st.vecs.get((p.r.id, p.o.const()))
        return r
    def fresh_region(self, ex, st, p, d, n, old=None, name=None):
        sz, fields = self.layout(d)
        nm = name or (old.name if old is not None else (self.name(p) if self.name else None) or f"{p.r.name}.{p.o.const()}")
        r = Region(nm, "array", stride=sz, size=n, kinds=(old.kinds if old is not None else (self.kinds(p) or ()) if self.kinds else ()))
        for off, w in fields: st.mem[(r.id, off, w)] = fresh_arr(nm, w)
        return r
    def bind(self, ex, st, p, r, n, old=None):
        if old is not None: st.dead.add(old.id)
        ex.bind_vec(st, p.r, p.o.const(), r, n)
        for k in range(3): ex.wrote((p.r.id, p.o.const() + 8 * k))
    def guard(self, ex, st, n, what):
        ex.safety(st, f"{what}: requested size below 2^57", z3.ULT(n, CAP))
    def resize_to(self, ex, st, p, d, n, fill, what):
        """fill: None keep unspecified; term: value of the new elements (width-matched)"""
        old = self.cur(st, p); sz, fields = self.layout(d)
        self.guard(ex, st, n, what)
        ol = old.size if old is not None else bv(0)
        r = self.fresh_region(ex, st, p, d, n, old)
        for off, w in fields:
            new = st.mem[(r.id, off, w)]; o = ex.arr(st, old, off, w) if old is not None else None
            f = fill if not isinstance(fill, dict) else fill[(off, w)]
            def body(k, new=new, o=o, f=f):
                keep = z3.Select(new, k) == z3.Select(o, k) if o is not None else z3.BoolVal(True)
                init = z3.Select(new, k) == f if f is not None else z3.BoolVal(True)
                return z3.If(z3.ULT(k, ol), keep, z3.Implies(z3.ULT(k, n), init))
            st.assume(Forall(body, [tuple(r.kinds)]))
        st.term(r.kinds, ol)
        self.bind(ex, st, p, r, n, old)
        return r
    def val(self, ex, st, d, a):
        """value argument: by const reference (pointer)"""
        sz, fields = self.layout(d)
        if isinstance(a, Ptr):
            out = {}
            for off, w in fields:
                class T: pass
                t = T(); t.kind = "int"; t.width = w; t.size = w // 8
                out[(off, w)] = ex.load(st, a.plus(off), t, "value argument")
                if z3.is_bool(out[(off, w)]): out[(off, w)] = b2bv(out[(off, w)], 8)
            return out if len(fields) > 1 or fields[0][0] else out[fields[0]]
        if z3.is_bool(a): return b2bv(a, 8)
        return a
    def zero(self, d):
        sz, fields = self.layout(d)
        return {(o, w): bv(0, w) for o, w in fields} if len(fields) != 1 else bv(0, fields[0][1])
    # ---- members
    def resize(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; v = self.val(ex, st, d, args[2]) if len(args) > 2 else self.zero(d)
        self.resize_to(ex, st, args[0], d, args[1], v, "resize"); return None
    def ctor(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; p = args[0]; sig = d[d.index(">::vector(") + 10:] if ">::vector(" in d else d
        st.vecs.pop((p.r.id, p.o.const()), None)
        if sig.startswith(")"):
            r = self.fresh_region(ex, st, p, d, bv(0)); self.bind(ex, st, p, r, bv(0)); return None
        if sig.startswith("unsigned long, "):
            m = sig.split(", ")[1]
            byval = not ("allocator" in m)
            v = self.val(ex, st, d, args[2]) if byval else self.zero(d)
            self.resize_to(ex, st, p, d, args[1], v, "vector(n)"); return None
        if sig.startswith("std::vector"):
            if "&&" in sig: return self.move(ex, st, p, args[1])
            return self.copy(ex, st, p, args[1], d)
        if sig.startswith("std::initializer_list"):
            src, n = args[1], conc(args[2]); sz, fields = self.layout(d)
            if n is None: raise Unsupported("initializer list of symbolic length")
            r = self.fresh_region(ex, st, p, d, bv(n))
            for off, w in fields:
                a = st.mem[(r.id, off, w)]
                for k in range(n):
                    class T: pass
                    t = T(); t.kind = "int"; t.width = w; t.size = w // 8
                    a = z3.Store(a, bv(k), ex.load(st, src.plus(k * sz + off), t, "initializer list"))
                st.mem[(r.id, off, w)] = a
            self.bind(ex, st, p, r, bv(n)); return None
        raise Unsupported(f"vector constructor {sig}")
    def copy(self, ex, st, p, q, d):
        src = st.vecs.get((q.r.id, q.o.const())); old = st.vecs.get((p.r.id, p.o.const()))
        if src is None: n = bv(0)
        else: n = src.size
        r = self.fresh_region(ex, st, p, d, n, old, name=None if old is not None else (src.name + "'" if src is not None else None))
        if src is not None:
            r.kinds |= src.kinds
            for off, w in self.layout(d)[1]: st.mem[(r.id, off, w)] = ex.arr(st, src, off, w)
        self.bind(ex, st, p, r, n, old); return None
    def move(self, ex, st, p, q):
        k = (q.r.id, q.o.const()); src = st.vecs.get(k); po = p.o.const()
        if src is None: raise Unsupported("move of unknown vector")
        st.vecs[(p.r.id, po)] = src
        for j in range(3): st.mem[(p.r.id, po + 8 * j)] = st.mem[(k[0], k[1] + 8 * j)]; st.mem[(k[0], k[1] + 8 * j)] = NULL
        st.vecs.pop(k, None); return None
    def assign_op(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]
        if "&&" in d: 
            old = st.vecs.pop((args[0].r.id, args[0].o.const()), None)
            if old is not None: st.dead.add(old.id)
            self.move(ex, st, args[0], args[1])
        else: self.copy(ex, st, args[0], args[1], d)
        return args[0]
    def push(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; p = args[0]; sz, fields = self.layout(d)
        if len(args) == 1: v = self.zero(d)
        elif len(args) == 1 + len(fields) and len(fields) > 1:      # emplace_back(field values...)
            v = {}
            for (off, w), a in zip(fields, args[1:]):
                if isinstance(a, Ptr):
                    class T: pass
                    t = T(); t.kind = "int"; t.width = w; t.size = w // 8; a = ex.load(st, a, t, "value argument")
                v[(off, w)] = a
        else: v = self.val(ex, st, d, args[1]) if len(args) == 2 else None
        if v is None: raise Unsupported(f"emplace with {len(args)} arguments: {d}")
        old = self.cur(st, p); n = old.size if old is not None else bv(0)
        if self.limit: st.assume(z3.ULT(n, CAP - 1))
        r = Region(old.name if old is not None else f"{p.r.name}.{p.o.const()}", "array", stride=sz, size=z3.simplify(n + 1), kinds=(old.kinds if old is not None else (self.kinds(p) or ()) if self.kinds else ()))
        for off, w in fields:
            a = ex.arr(st, old, off, w) if old is not None else fresh_arr(r.name, w)
            x = v[(off, w)] if isinstance(v, dict) else v
            if x.size() > w: x = z3.Extract(w - 1, 0, x)
            elif x.size() < w:
                arg = d[d.rindex("(") + 1:]
                x = z3.SignExt(w - x.size(), x) if re.match(r"(int|char|signed char|short|long)\b", arg) else z3.ZeroExt(w - x.size(), x)
            st.mem[(r.id, off, w)] = z3.Store(a, n, x)
        st.term(r.kinds, n)
        self.bind(ex, st, p, r, r.size, old)
        ret = ins.ty.kind
        return Ptr(r, lin_of(n).mul(sz)) if ret == "pointer" else None
    def pop(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; p = args[0]; old = self.cur(st, p)
        ex.safety(st, "pop_back on a non-empty vector", old.size != 0 if old is not None else z3.BoolVal(False))
        n = z3.simplify(old.size - 1)
        r = Region(old.name, "array", stride=old.stride, size=n, kinds=old.kinds)
        for k, a in list(st.mem.items()):
            if k[0] == old.id and len(k) == 3: st.mem[(r.id,) + k[1:]] = a
        self.bind(ex, st, p, r, n, old); return None
    def assign(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; p = args[0]
        if len(args) != 3 or isinstance(args[1], Ptr): raise Unsupported(f"vector::assign {d}")
        v = self.val(ex, st, d, args[2]); old = self.cur(st, p)
        if old is not None: st.dead.add(old.id)
        nm = old
        st.vecs.pop((p.r.id, p.o.const()), None)
        self.guard(ex, st, args[1], "assign")
        r = self.fresh_region(ex, st, p, d, args[1], nm); n = args[1]
        for off, w in self.layout(d)[1]:
            new = st.mem[(r.id, off, w)]; f = v[(off, w)] if isinstance(v, dict) else v
            st.assume(Forall(lambda k, new=new, f=f: z3.Select(new, k) == f, [tuple(r.kinds)]))
        self.bind(ex, st, p, r, n); return None
    def clear(self, ex, st, ins, args):
        d = ex.dem[ins.extra["callee"].name]; p = args[0]; old = self.cur(st, p)
        r = self.fresh_region(ex, st, p, d, bv(0), old); self.bind(ex, st, p, r, bv(0), old); return None
    def same(self, ex, st, ins, args):
        """reserve / shrink_to_fit: contents and length unchanged, storage may move"""
        d = ex.dem[ins.extra["callee"].name]; p = args[0]; old = self.cur(st, p)
        if old is None: return None
        r = Region(old.name, "array", stride=old.stride, size=old.size, kinds=old.kinds)
        for k, a in list(st.mem.items()):
            if k[0] == old.id and len(k) == 3: st.mem[(r.id,) + k[1:]] = a
        self.bind(ex, st, p, r, old.size, old); return None
    def dtor(self, ex, st, ins, args):
        p = args[0]; old = st.vecs.pop((p.r.id, p.o.const()), None)
        if old is not None: st.dead.add(old.id)
        return None
    def default_ctor(self, ex, st, ins, args): raise Unsupported("vector()")
    def models(self):
        out = []
        for names, f, lab in ((r"resize", self.resize, "resize"), (r"vector", self.ctor, "constructors"), (r"operator=", self.assign_op, "operator="), (r"(push_back|emplace_back)(<.*>)?", self.push, "push_back/emplace_back"),
                              (r"pop_back", self.pop, "pop_back"), (r"assign", self.assign, "assign"), (r"clear", self.clear, "clear"), (r"(reserve|shrink_to_fit)", self.same, "reserve/shrink_to_fit"), (r"~vector", self.dtor, "destructor")):
            def g(ex, st, ins, args, f=f): return f(ex, st, ins, args)
            g.label = f"std::vector::{lab} (trusted library contract)"
            out.append((re.compile(VEC + names + r"\("), g))
            if "emplace" in names: out.append((re.compile(r"^[^()]*[&*d] std::vector<(?!bool)[^()]*>::emplace_back<"), g))
        return out

def m_throw(ex, st, ins, args): return []      # exception thrown: the path leaves the function under contract
m_throw.label = "throw"
def m_exc(ex, st, ins, args): return Ptr(Region("exception", "struct"))
m_exc.label = "exception object"
def m_nop(ex, st, ins, args): return None
m_nop.label = "no effect"
THROW = [(re.compile(r"__cxa_throw|std::__throw_"), m_throw), (re.compile(r"__cxa_allocate_exception"), m_exc), (re.compile(r"std::(out_of_range|length_error|logic_error|runtime_error|domain_error)::"), m_nop)]
