"""Discharging obligations: explicit instantiation of the quantified facts, then a portfolio of z3 and cvc5."""
import os, time, itertools, multiprocessing as mp
import z3
from .engine import Forall, bv

def ground(hyps, terms, goal=None, split=False):
    """quantifier-free assertion list equivalent to (a consequence-preserving weakening of) hyps and not goal"""
    terms = {k: dict(v) for k, v in terms.items()}
    out = []; lazy = []; fas = []
    if goal is not None:
        if isinstance(goal, Forall):
            sk = [z3.FreshConst(z3.BitVecSort(s) if isinstance(s, int) else s, f"sk_{goal.name}") for s in goal.sorts]
            for ks, c in zip(goal.kinds, sk):
                for k in ks: terms.setdefault(k, {})[c.get_id()] = c
                terms.setdefault("sk", {})[c.get_id()] = c
            g = goal.inst(*sk)
            extra = []
            if isinstance(g, tuple): g, extra = g
            for (k, e) in extra:
                if k is None: hyps = list(hyps) + [e]; continue      # lemma instance
                e = z3.simplify(e); terms.setdefault(k, {})[e.get_id()] = e
            goal = g
        out.append(z3.Not(goal))
    for h in hyps:
        if isinstance(h, Forall): fas.append(h)
        else: out.append(h)
    done = set()
    for rnd in range(2):
        new = {}
        for n, f in enumerate(fas):
            pools = []
            for ks in f.kinds[:f.arity]:
                d = {}
                for k in ks: d.update(terms.get(k, {}))
                pools.append(list(d.values()))
            for combo in itertools.product(*pools):
                if any(c.sort() != (z3.BitVecSort(s) if isinstance(s, int) else s) for c, s in zip(combo, f.sorts)): continue
                key = (n,) + tuple(c.get_id() for c in combo)
                if key in done: continue
                done.add(key)
                b = f.inst(*combo)
                if isinstance(b, tuple):
                    b, extra = b
                    for (k, e) in extra:
                        if k is None: lazy.append(e); continue
                        e = z3.simplify(e); new.setdefault(k, {})[e.get_id()] = e
                lazy.append(b)
        if not new: break
        for k, d in new.items(): terms.setdefault(k, {}).update(d)
    return (out, lazy) if split else out + lazy

def conjuncts(g, limit=16):
    """formulas whose conjunction is equivalent to g"""
    if z3.is_app(g):
        k = g.decl().kind()
        if k == z3.Z3_OP_AND:
            out = [x for c in g.children() for x in conjuncts(c, limit)]
            if len(out) <= limit: return out
        elif k == z3.Z3_OP_IMPLIES:
            return [z3.Implies(g.arg(0), x) for x in conjuncts(g.arg(1), limit)]
    return [g]
def to_smts(hyps, terms, goal):
    """one (smt text, n) per conjunct of the goal"""
    core, lazy = ground(hyps, terms, goal, split=True)
    ng = core[0]; parts = conjuncts(ng.arg(0))
    return [_smt([z3.Not(p)] + core[1:], lazy) for p in parts]
def to_smt(hyps, terms, goal):
    """(smt text, number of leading assertions that are not instances of quantified facts)"""
    return _smt(*ground(hyps, terms, goal, split=True))
def _smt(core, lazy):
    s = z3.Solver(); seen = set(); n = 0
    for k, l in enumerate((core, lazy)):
        for a in l:
            if isinstance(a, bool): a = z3.BoolVal(a)
            a = z3.simplify(a, mul2concat=True)
            if z3.is_true(a) or a.get_id() in seen: continue
            seen.add(a.get_id()); s.add(a); n += k == 0; keep.append(a)
    keep.clear()
    return s.to_smt2(), n
keep = []

def _z3(smt, ms, logic=None, model=False, seed=0):
    ctx = z3.Context()
    if logic == "bb":
        s = z3.Then(z3.With("simplify", ctx=ctx), "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat", ctx=ctx).solver()
    else: s = z3.SolverFor(logic, ctx=ctx) if logic else z3.Solver(ctx=ctx)
    s.set("timeout", int(ms))
    s.from_string(smt)
    r = s.check()
    m = None
    if r == z3.sat and model:
        try: m = str(s.model())[:6000]
        except Exception: m = None
    return str(r), m

def _lazy(smt, ms, ncore, logic="QF_AUFBV"):
    """model-based instantiation: only the instances violated by a candidate model are added"""
    ctx = z3.Context(); fs = list(z3.parse_smt2_string(smt, ctx=ctx)); t1 = time.time() + ms / 1000
    core, rest = fs[:ncore], fs[ncore:]
    while True:
        left = t1 - time.time()
        if left < 0.05: return "unknown", None
        s = z3.SolverFor(logic, ctx=ctx) if logic else z3.Solver(ctx=ctx); s.set("timeout", int(left * 1000)); s.add(core)
        r = s.check()
        if r != z3.sat: return str(r), None
        m = s.model(); bad = []; ok = []
        for f in rest: (ok if z3.is_true(m.eval(f, model_completion=True)) else bad).append(f)
        if not bad: return "sat", str(m)[:6000]
        bad.sort(key=lambda f: len(f.sexpr())); k = max(8, len(bad) // 3)
        core = core + bad[:k]; rest = ok + bad[k:]

def _cvc5(smt, ms):
    import cvc5
    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    s = cvc5.Solver(tm) if tm else cvc5.Solver()
    s.setOption("tlimit-per", str(int(ms)))
    s.setOption("produce-models", "false")
    p = cvc5.InputParser(s)
    smt = "(set-logic ALL)\n" + "\n".join(l for l in smt.split("\n") if not l.startswith("(set-info"))
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "vc")
    sm = p.getSymbolManager(); res = "unknown"
    while True:
        c = p.nextCommand()
        if c.isNull(): break
        r = c.invoke(s, sm)
        r = str(r).strip()
        if r in ("sat", "unsat", "unknown"): res = r
    return res

def solve_one(job):
    """job=(id, smt, budget_s, shape) -> (id, status, backend, time, model)"""
    i, (smt, ncore), budget, shape = job
    t0 = time.time(); status = "unknown"; be = None; m = None
    plan = {None: [("z3-qf", "QF_AUFBV", 2), ("z3-lazy", "QF_AUFBV", 4), ("cvc5", None, 2), ("z3", None, 3), ("z3-lazy", "QF_AUFBV", 15), ("cvc5", None, 8), ("z3-qf", "QF_AUFBV", 20), ("cvc5", None, 30)],
            "bv": [("z3-qf", "QF_BV", 4), ("cvc5", None, 15), ("z3-bb", "bb", 20), ("z3", None, 20)],
            "mul": [("cvc5", None, 10), ("z3", None, 10), ("z3-qf", "QF_BV", 10)]}.get(shape) or [("z3", None, 5), ("cvc5", None, 20)]
    for name, logic, secs in plan + [(n, l, 4 * t) for n, l, t in plan if t >= 8]:
        left = budget - (time.time() - t0)
        if left <= 0.2: break
        ms = min(secs, left) * 1000
        try:
            if name == "z3-lazy": r, m = _lazy(smt, ms, ncore, logic)
            elif name.startswith("z3"): r, m = _z3(smt, ms, logic, True)
            else: r = _cvc5(smt, ms)
        except Exception as e:
            r = "unknown"; m = f"{name}: {e}"[:500]
        if r in ("sat", "unsat"): status = r; be = name; break
    return i, status, be, time.time() - t0, m

_pool = None
def _init():
    import resource, signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
def pool():
    global _pool
    if _pool is None:
        _pool = mp.get_context("fork").Pool(int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)), initializer=_init)
    return _pool
def reset_pool():
    global _pool
    if _pool is not None: _pool.terminate(); _pool = None

def prepare(o):
    """turns an obligation into solver input; afterwards it holds no solver terms"""
    g = o.goal; o.status = None
    if not isinstance(g, Forall) and z3.is_true(z3.simplify(g)): o.status = "unsat"; o.backend = "simplify"; o.parts = []
    else: o.parts = to_smts(o.hyps, o.terms, g)
    o.hyps = o.goal = o.terms = None
def discharge(obs, budget=40, deadline=None, soft=None, stop=None):
    """fills in status for every obligation.  deadline: wall-clock limit; soft: limit that applies once something failed;
    stop(): polled, true = give up on the rest (a concrete failing input is already known)"""
    jobs = []
    for n, o in enumerate(obs):
        if o.parts is None and o.status is None: prepare(o)
        if o.status is not None: continue
        o.left = len(o.parts)
        for x in o.parts: jobs.append((n, x, budget, o.shape))
    jobs.sort(key=lambda j: j[3] is None)
    it = pool().imap_unordered(solve_one, jobs, chunksize=1); left = len(jobs); nbad = 0
    while left:
        try: i, st, be, t, m = it.next(timeout=1.0)
        except mp.TimeoutError: i = None
        if i is not None:
            o = obs[i]; o.time += t; left -= 1; nbad += st != "unsat"; o.left -= 1
            if st != "unsat": o.bad = st; o.backend = be; o.model = m
            elif o.bad is None and (o.backend is None or t > 1): o.backend = be
            if not o.left: o.status = o.bad or "unsat"
        now = time.time()
        if left and ((deadline and now > deadline) or (nbad and soft and now > soft) or (stop and stop())):
            for o in obs:
                if o.status is None: o.status = "not attempted (time limit)"
            reset_pool(); break
    return obs

def cover(hyps, terms):
    """vacuity guard: 'sat'/'unknown' is fine, 'unsat' means contradictory assumptions"""
    smt = to_smt(hyps, terms, None)
    return smt
