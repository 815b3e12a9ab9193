"""Runs one property's check: extract -> generate obligations -> discharge -> (on failure) concrete replay -> evidence."""
import importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback, threading, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from vc import build, llvm, engine, solve
import z3

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
HARD = 800.0 if TIER != 'thorough' else 3000.0        # never run longer than this

def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)

class Replay:
    """concrete harness over the real headers: g++ (as the test suite builds it) and an AddressSanitizer build"""
    def __init__(self, prop, src, work):
        self.prop = prop; self.src = os.path.join(VERIF, "replay", src); self.work = work; self.err = {}; self.bins = {}; self.th = []
        for tag, flags in (("plain", ["-O2", "-DNDEBUG"]), ("asan", ["-O1", "-DNDEBUG", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"])):
            t = threading.Thread(target=self.compile, args=(tag, flags), daemon=True); t.start(); self.th.append(t)
    def compile(self, tag, flags):
        out = os.path.join(self.work, "replay_" + tag)
        try:
            p = subprocess.run(["g++", "-std=c++17", "-w", *flags, "-I" + build.REPO + "/include", "-I" + VERIF + "/replay", self.src, "-o", out],
                               capture_output=True, text=True, timeout=400)
            if p.returncode: self.err[tag] = p.stderr[-3000:]
            else: self.bins[tag] = out
        except Exception as e: self.err[tag] = str(e)
    def wait(self):
        for t in self.th: t.join()
    def run(self, secs, seed, hints=()):
        """returns (failure description or None, stats)"""
        self.wait()
        procs = []; nproc = 3 if secs > 10 else 1
        for tag, b in self.bins.items():
            for k in range(nproc):
                sf = os.path.join(self.work, f"status_{tag}_{k}"); of = open(os.path.join(self.work, f"out_{tag}_{k}"), "w+")
                env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0", REPLAY_STATUS=sf)
                p = subprocess.Popen(["timeout", "-k", "2", str(int(secs) + 25), b, str(seed * 1000003 + k * 7919 + (1 if tag == "asan" else 0)), str(secs)],
                                     stdout=of, stderr=subprocess.STDOUT, env=env, cwd=self.work)
                procs.append((tag, p, sf, of))
        fail = None; stats = {"cases": 0, "nontrivial": 0, "samples": []}
        for tag, p, sf, of in procs:
            p.wait(); of.flush(); of.seek(0); out = of.read(); of.close()
            st = ""
            try: st = open(sf, "rb").read().split(b"\0")[0].decode(errors="replace")
            except OSError: pass
            m = re.search(r"^DONE cases=(\d+) nontrivial=(\d+)", out, re.M)
            if m: stats["cases"] += int(m.group(1)); stats["nontrivial"] += int(m.group(2))
            for x in re.findall(r"^SAMPLE (.*)$", out, re.M)[:4]:
                if len(stats["samples"]) < 12: stats["samples"].append(x)
            if p.returncode != 0:
                what = "wrong result" if "FAIL " in out else ("did not terminate" if p.returncode in (124, 137) else "crash / memory error")
                d = {"build": tag, "what": what, "case": st, "exit": p.returncode, "output": out[-6000:],
                     "rerun": f"compile {os.path.relpath(self.src, VERIF)} against include/ ({tag} flags in vc/check.py), run: <binary> 0 0 '{st}'"}
                if fail is None or (fail["what"] != "wrong result" and what == "wrong result"): fail = d
        return fail, stats

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def verify_spec(mod, dem, spec, models):
    """all obligations of one function contract; tries alternative loop-variable bindings if the default does not bind"""
    P = engine.Prover()
    if spec.fn.startswith("re:"):
        c = [n for n, d in dem.items() if re.search(spec.fn[3:], d) and mod.func(n) is not None]
        if len(c) != 1: raise engine.Unsupported(f"function {spec.fn[3:]}: {len(c)} candidates")
        spec.fn = c[0]
    ex = engine.Exec(mod, dem, spec.fn, P, spec.models + models, spec)
    obs = ex.verify()
    ex.P = P
    return ex, obs

def gen_one(k):
    mod, dem, spec, models = JOBS[k]
    try:
        ex, obs = verify_spec(mod, dem, spec, models)
        if not any(o.kind == "contract" for o in obs): raise engine.Unsupported("no contract obligation generated (vacuous)")
        for o in obs: o.fn = spec.fn; solve.prepare(o)
        cov = [(spec.fn, "precondition", solve.to_smt(ex.covers[0][1], ex.covers[0][2], None)), (spec.fn, "return", [solve.to_smt(h, t, None) for h, t in list(zip(ex.ret_covers, ex.ret_terms))[:6]])]
        return {"fn": spec.fn, "info": {"title": spec.title, "obligations": len(obs), "paths": ex.paths, "loops": len(ex.loops), "callee_contracts": sorted(ex.used_models)},
                "obs": obs, "covers": cov, "noterm": list(getattr(ex.P, "noterm", [])), "trivial": getattr(ex.P, "trivial", 0), "models": list(ex.used_models)}
    except engine.Unsupported as e: return str(e) or "unsupported"
    except Exception: return traceback.format_exc()[-2500:]
JOBS = []
def generate(jobs, limit):
    import multiprocessing as mp
    JOBS[:] = jobs
    if not jobs: return []
    pool = mp.get_context("fork").Pool(min(len(jobs), int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))), maxtasksperchild=4)
    rs = [pool.apply_async(gen_one, (k,)) for k in range(len(jobs))]; out = []
    for r in rs:
        try: out.append(r.get(timeout=max(1.0, T0 + limit - time.time())))
        except mp.TimeoutError: out.append(f"time limit of {limit:.0f}s for generating obligations")
        except Exception as e: out.append(f"{type(e).__name__}: {e}"[:2000])
    pool.terminate()
    return out

def main(prop):
    work = tempfile.mkdtemp(prefix=f"vc_{prop}_")
    try: return _main(prop, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def _main(prop, work):
    C = importlib.import_module(f"contracts.{prop}")
    solve.pool()
    rp = Replay(prop, C.REPLAY, work) if getattr(C, "REPLAY", None) else None
    failed = []; allobs = []; funcs = {}; assumptions = list(getattr(C, "ASSUMPTIONS", [])); trusted = set(); nlem = 0; noterm = set(); trivial = 0
    budget = getattr(C, "BUDGET", 300) * (4 if TIER == "thorough" else 1)
    groups = C.units()
    pend = []   # (group name, obs, covers)
    # ---- lemmas (pure facts used by the contracts), discharged like obligations
    lem = []
    for L in (C.lemmas() if hasattr(C, "lemmas") else []):
        name, hyps, goal = L[0], L[1], L[2]; shape = L[3] if len(L) > 3 else None
        if isinstance(goal, (list, tuple)):
            for n, g in enumerate(goal): lem.append(engine.Obligation(fn="lemma", label=f"{name}[{n}]", line=0, hyps=list(hyps), goal=g, terms={}, kind="lemma", shape=shape))
        else: lem.append(engine.Obligation(fn="lemma", label=name, line=0, hyps=list(hyps), goal=goal, terms={}, kind="lemma", shape=shape))
    allobs += lem
    from concurrent.futures import ThreadPoolExecutor
    def do_build(n, U):
        d = os.path.join(work, f"u{n}"); os.mkdir(d)
        return build.to_ir(os.path.join(VERIF, "harness", U["tu"]), d, keep=U.get("keep", ()), defs=U.get("defs", ()))
    built = []
    with ThreadPoolExecutor(8) as tp:
        futs = [tp.submit(do_build, n, U) for n, U in enumerate(groups)]
        for f in futs:
            try: built.append(f.result())
            except Exception as e: built.append(e)
    covers = []
    jobs = []
    for U, b in zip(groups, built):
        if isinstance(b, Exception):
            failed.append((U["tu"], "extraction of the code under contract", str(b)[-3000:])); continue
        out, dem = b
        mod = llvm.Module(out)
        for spec in U["specs"]: jobs.append((mod, dem, spec, U.get("models", [])))
    # generation runs in forked workers, one function contract per job; a worker that dies or runs out of time leaves its contract undischarged
    for (mod, dem, spec, _), r in zip(jobs, generate(jobs, HARD * 0.6)):
        if isinstance(r, str): failed.append((spec.fn, f"contract of {spec.title}: obligations could not be generated", r)); continue
        spec.fn = r["fn"]; f = r["info"]
        if spec.fn in funcs: funcs[spec.fn]["obligations"] += f["obligations"]; funcs[spec.fn]["title"] += "; " + f["title"]
        else: funcs[spec.fn] = f
        allobs += r["obs"]; covers += r["covers"]; noterm |= set(r["noterm"]); trivial += r["trivial"]; trusted |= set(r["models"])
    log(f"{prop}: {len(funcs)} functions under contract, {len(lem)} lemmas, {len(allobs)} obligations generated")
    # concrete runs start now, in parallel with the solvers
    box = {}
    def smoke_run():
        rp.wait(); box["res"] = rp.run(getattr(C, "SMOKE", 4) * (8 if TIER == "thorough" else 1), SEED)
    smt_ = None
    if rp: smt_ = threading.Thread(target=smoke_run, daemon=True); smt_.start()
    solve.discharge(allobs, budget, deadline=T0 + HARD * 0.88, soft=T0 + max(HARD * 0.3, 60), stop=lambda: "res" in box and box["res"][0] is not None and time.time() - T0 > 90)
    # ---- vacuity guards
    cov_bad = []
    jobs = []; names = []
    for fn, k, s in covers:
        for x in (s if isinstance(s, list) else [s]): jobs.append((len(jobs), x, 6, "cover")); names.append((fn, k))
    res = {}
    for i, st, be, t, m in solve.pool().imap_unordered(solve.solve_one, jobs): res.setdefault(names[i], []).append(st)
    for (fn, k), l in res.items():
        if all(x == "unsat" for x in l): cov_bad.append((fn, k))
    for fn, k in cov_bad: failed.append((fn, f"vacuity guard: {k} is contradictory", ""))
    bad = [o for o in allobs if o.status != "unsat"]
    # ---- second chance: other bindings of the loop roles (renamed / reordered variables)
    if hasattr(C, "rebind") and bad: pass
    stime = sum(o.time for o in allobs); byb = {}
    for o in allobs:
        if o.status == "unsat": byb[o.backend] = byb.get(o.backend, 0) + 1
    disc = sum(1 for o in allobs if o.status == "unsat")
    log(f"discharged {disc}/{len(allobs)} ({byb}), solver time {stime:.1f}s; undischarged: {len(bad)}, not generated: {len(failed)}")
    if os.environ.get("VC_SLOW"):
        for o in sorted(allobs, key=lambda o: -o.time)[:int(os.environ["VC_SLOW"])]: log("  slow", f"{o.time:.1f}s", o.status, o.backend, o.fn, o.label, o.line)
    for o in bad[:12]: log("  UNDISCHARGED", o.status, o.fn, o.label, f"line {o.line}", f"{o.time:.1f}s")
    for f in failed[:12]: log("  NOT GENERATED", f[0], f[1], f[2][-600:])
    # ---- concrete side
    fail = None; stats = {}
    if rp:
        rp.wait()
        for t, e in rp.err.items(): log("replay harness did not compile:", t, e[-800:])
        smt_.join()
        fail, stats = box["res"]
        if fail is None and (bad or failed):
            left = max(10, min(getattr(C, "SEARCH", int(os.environ.get("VC_SEARCH", 60))) * (4 if TIER == "thorough" else 1), HARD - (time.time() - T0) - 60))
            log(f"searching for a concrete failing input ({left:.0f}s)")
            fail, s2 = rp.run(left, SEED + 17)
            for k in ("cases", "nontrivial"): stats[k] = stats.get(k, 0) + s2.get(k, 0)
        log("concrete runs:", {k: v for k, v in stats.items() if k != "samples"})
    viol = bool(bad or failed or fail)
    if rp and rp.err and not rp.bins:
        if not viol: failed.append(("replay", "replay harness does not compile against the current headers", str(rp.err)[-2000:])); viol = True
    kf = known_findings(prop)
    for k in kf: print(f"KNOWN-FINDING: property={prop} {k}")
    level = getattr(C, "LEVEL", "proof")
    cov = {"obligations": len(allobs) + len(failed), "discharged": disc, "discharged_by": byb, "trivially_true_safety_conditions": trivial,
           "lemmas": len(lem), "functions_under_contract": funcs, "solver_seconds": round(stime, 2),
           "checker_cmd": f"python3-vt vc/check.py {prop}", "trusted_base": sorted(trusted | set(getattr(C, "TRUSTED", []))) + COMMON_TRUSTED,
           "vacuity_guards": {f"{a}:{b}": l for (a, b), l in res.items()}, "loops_without_variant": sorted(noterm),
           "bounded_stand_ins": getattr(C, "BOUNDED", []),
           "evaluations": stats.get("cases", 0), "distinct_nontrivial": stats.get("nontrivial", 0),
           "rule": getattr(C, "RULE", "random structured inputs against a naive oracle; non-trivial = the case exercised the operation on a non-empty structure"),
           "samples": stats.get("samples", []) or [f"{o.fn}: {o.label} (line {o.line}) {o.status} by {o.backend}" for o in allobs[:5]],
           "undischarged": [f"{o.fn}: {o.label} line {o.line}: {o.status}" for o in bad][:40] + [f"{a}: {b}: {c[:300]}" for a, b, c in failed][:40],
           "explanation": getattr(C, "EXPLANATION", "")}
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": assumptions + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f: json.dump(ev, f, indent=1)
    if not viol:
        log(f"{prop}: held"); return 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rpath = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
    with open(rpath, "w") as f:
        json.dump({"property": prop, "failing_input": fail,
                   "failed_obligations": [{"function": o.fn, "obligation": o.label, "line": o.line, "status": o.status, "solver_model": o.model, "path": [list(x) for x in o.trace]} for o in bad][:20]
                   + [{"function": a, "obligation": b, "verifier_output": c} for a, b, c in failed][:20]}, f, indent=1)
    if fail:
        log("failing input:", fail["what"], fail["case"]); print("\n".join(fail["output"].split("\n")[:30]))
    for o in bad[:5]: print(f"failed obligation: {o.fn}: {o.label} (line {o.line}) -> {o.status}")
    for a, b, c in failed[:5]: print(f"failed obligation: {a}: {b}")
    print(f"VIOLATION property={prop} replay={rpath}" + ("" if fail else " no-failing-input-found"), flush=True)
    return 1

COMMON_TRUSTED = ["clang 18 front end and the LLVM inliner/SROA/early-cse/simplifycfg passes used for extraction", "vc/engine.py (LLVM-IR semantics, VC generation)", "z3 5.3 / cvc5 1.4 answering unsat"]
COMMON_ASSUMPTIONS = ["allocation succeeds; exceptions thrown by the standard library are not modelled (exceptional edges are dropped)",
                      "distinct containers own disjoint storage; sizes stay below 2^57 elements",
                      "machine integers are bit-vectors of their exact width (no idealised arithmetic)"]

if __name__ == "__main__":
    try: rc = main(sys.argv[1])
    except SystemExit: raise
    except BaseException as e:
        # the verifier itself gave up on the current source: the obligations are not discharged, so the property is not established
        traceback.print_exc()
        prop = sys.argv[1]
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rpath = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
        with open(rpath, "w") as f: json.dump({"property": prop, "failed_obligations": [{"function": "-", "obligation": "verifier could not process the current source", "verifier_output": traceback.format_exc()}]}, f, indent=1)
        print(f"VIOLATION property={prop} replay={rpath} no-failing-input-found")
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
