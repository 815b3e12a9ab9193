"""Mechanical extraction: /repo headers -> LLVM IR (no edits, no look-alike)."""
import os, re, subprocess, tempfile
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG, OPT, FILT = "clang++-18", "opt-18", "llvm-cxxfilt-18"
CFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-g1", "-fno-discard-value-names", "-Xclang", "-disable-llvm-passes", "-w",
          "-fno-vectorize", "-fno-slp-vectorize"]

class BuildError(Exception): pass

def run(cmd, timeout=300, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stderr[-4000:])
    return p.stdout

def demangle(names):
    out = subprocess.run([FILT], input="\n".join(names) + "\n", capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))

PASSES = "forceattrs,always-inline,cgscc(inline),function(lower-invoke<>,sroa<modify-cfg>,early-cse,simplifycfg,loop-simplify)"

def to_ir(tu, workdir, keep=(), defs=(), passes=None, extra_passes=None):
    """Compile tu (path under harness/) to an inlined module.  keep: regexes over demangled names that stay calls
    (functions that carry a contract)."""
    bc = os.path.join(workdir, "raw.bc"); out = os.path.join(workdir, "out.bc")
    run([CLANG, *CFLAGS, *defs, "-I" + REPO + "/include", "-I" + VERIF + "/harness", "-emit-llvm", "-c", tu, "-o", bc])
    nm = run(["llvm-nm-18", "--format=just-symbols", bc]).split("\n")
    nm = [n for n in nm if n]
    dem = demangle(nm)
    rx = [re.compile(k) for k in keep]
    fa = []
    kept = {}
    for n in nm:
        d = dem[n]
        for r in rx:
            if r.search(d): fa.append(f"-force-attribute={n}:noinline"); kept[n] = d; break
    if fa:
        rsp = os.path.join(workdir, "args.rsp")
        with open(rsp, "w") as f: f.write("\n".join("'" + a + "'" for a in fa))
        fa = ["@" + rsp]
    ps = passes or ("forceattrs,cgscc(inline),function(lowerinvoke,simplifycfg<no-sink-common-insts>,sroa<modify-cfg>,early-cse,simplifycfg<no-sink-common-insts;no-speculate-blocks;no-switch-range-to-icmp>,loop-simplify)")
    run([OPT, "-inline-threshold=1000000", "-inlinehint-threshold=1000000", "-inlinecold-threshold=1000000",
         "-locally-hot-callsite-threshold=1000000", "-passes=" + ps, *fa, bc, "-o", out])
    return out, dem
