"""The table searches of the lock pool and their selection (A14)."""
import multiprocessing as mp
import os
from . import check
from .. import build, llvm, poolcheck, vecscan, dispatch
from ..engine import Incomplete
from ..report import loc_text, Broken

# variant -> (source file, flags the build gives that file, variants it may hand the job to)
VARIANTS = {
    "find_address_generic": ("lock_pool.cpp", [], ()),
    "find_address_sse2": ("find_address_sse2.cpp", ["-msse", "-msse2"], ("find_address_generic",)),
    "find_address_sse41": ("find_address_sse41.cpp", ["-msse", "-msse2", "-msse3", "-mssse3", "-msse4.1"], ("find_address_generic", "find_address_sse2")),
}
NEEDS = {"find_address_generic": (), "find_address_sse2": ("sse2",), "find_address_sse41": ("sse41",)}
CFG = {"c++11": ["-std=c++11"], "c++17": ["-std=c++17"], "sandybridge": ["-std=c++20", "-march=sandybridge"], "O2": ["-std=c++17", "-O2"]}


def compile_src(src, flags):
    return build.compile_ir('#include "%s/src/%s"\n' % (build.REPO, src), flags + poolcheck.FLAGS + ["-I" + build.REPO + "/src"], name="find_address")


def short(n):
    d = llvm.demangle(n) or ""
    s = d.split("(")[0] if "(anonymous" not in d else d.replace("(anonymous namespace)", "").split("(")[0]
    s = s.split("::")[-1]
    return s if s.startswith("find_address_") and "(" in d else None


def features(text):
    return {x for x in (text or "").split(",") if x.startswith("+")}


def job(j):
    variant, cfg, residues = j
    src, fl, lower = VARIANTS[variant]
    flags = CFG[cfg] + fl
    try:
        m = llvm.Module(compile_src(src, flags))
        base = llvm.Module(build.compile_ir("void verif_base() {}\n", flags, name="base"))
    except build.BuildError as x:
        return j, ("build", x.what, x.text)
    fns = [f for n, f in m.functions.items() if short(n) == variant and not f.decl]
    if len(fns) != 1:
        return j, ("broken", "%s not found in %s" % (variant, src))
    f = fns[0]
    extra = []
    b = next(iter(base.functions.values()))
    over = features(f.attrs.get("target-features")) - features(b.attrs.get("target-features"))
    if over:
        extra.append(("feature-not-guaranteed", ((build.REPO + "/src/" + src, 0),), "%s is compiled for %s, which the flags of this file do not promise" % (variant, ", ".join(sorted(over))), ()))
    try:
        F, c = vecscan.analyse(f, lower, residues)
    except Incomplete as x:
        return j, ("incomplete", str(x), extra)
    return j, ("ok", extra + F, c)


def dispatch_job(cfg):
    flags = CFG[cfg]
    m = llvm.Module(compile_src("lock_pool.cpp", flags))
    base = features(next(iter(llvm.Module(build.compile_ir("void verif_base() {}\n", flags, name="base")).functions.values())).attrs.get("target-features"))
    have = {k for k, f in (("sse2", "+sse2"), ("sse41", "+sse4.1")) if f in base}
    needs = lambda v: [f for f in NEEDS.get(v, ()) if f not in have]
    out = {"findings": [], "incomplete": [], "counts": {}, "fns": [], "inits": []}
    holders = set()

    def names(v, depth=0):
        if v.kind in ("func", "alias"):
            return [v.name]
        return [n for o in (v.ops or ()) for n in names(o, depth + 1)] if depth < 8 and v.kind != "inst" else []
    for n, g in m.globals.items():
        for o in g.ops or ():
            for t in names(o):
                s = short(t)
                if s is None:
                    continue
                holders.add(n)
                out["inits"].append((llvm.demangle(n), s))
                if s not in VARIANTS and not any(f.name == t and not f.decl for f in m.functions.values()):
                    out["findings"].append(("unknown-variant", "", "%s initially selects %s, which is not one of the searches" % (llvm.demangle(n), s), ()))
                for f in needs(s) if s in VARIANTS else ():
                    out["findings"].append(("variant-not-supported", "", "%s initially selects %s, which needs a feature the target does not promise" % (llvm.demangle(n), s), ()))
    for n, f in m.functions.items():
        if f.decl:
            continue
        used = {s for b in f.blocks for i in b.insts for o in list(i.ops) + ([i.attr["callee"]] if i.op == "call" else []) for t in names(o) for s in [short(t)] if s}
        ptr = any(o.kind == "global" and o.name in holders for b in f.blocks for i in b.insts for o in i.ops)
        wide = [s for s in used if s not in VARIANTS or NEEDS[s]]
        if not wide and not ptr:
            continue
        g = dispatch.Guards(f, short, lambda v: needs(v), lambda x: x in holders)
        if not wide and not any(i.op in ("store", "atomicrmw", "cmpxchg") and any(o.kind == "global" and o.name in holders for o in i.ops) for b in f.blocks for i in b.insts):
            out["counts"]["functions that only use the selected search"] = out["counts"].get("functions that only use the selected search", 0) + 1
            continue
        out["fns"].append(llvm.demangle(n))
        try:
            g.run()
        except Incomplete as x:
            out["incomplete"].append((llvm.demangle(n), str(x)))
        out["findings"] += g.findings
        for k, v in g.counts.items():
            out["counts"][k] = out["counts"].get(k, 0) + v
    return out


@check("A14")
def a14(r):
    r.rule("result", "for every table size (64*Q + s, symbolic Q, each s), every contents and address: the index returned is an entry compared equal in all its bits, or at least the size after every entry was "
           "compared; an unused entry is reported only when all before it differ")
    r.rule("access", "only entries below the size rounded up to a pair are read; alignment assumed by an access follows from a 16 byte aligned table")
    r.rule("selection", "a variant is stored or called only where its processor feature is promised by the compile target or a cpuid bit tested on the path; cpuid leaf 1 only where leaf 0 reported it; "
           "arguments are passed on unchanged")
    r.assumptions += ["cpuid feature bits as documented by the processor vendors", "the build gives find_address_sse2.cpp and find_address_sse41.cpp the flags of CMakeLists.txt/Jamfile.v2",
                      "the operating system saves SSE state (x86-64)", "sizes below 2^60"]
    cfgs = ["c++17", "sandybridge"] if r.tier == "quick" else list(CFG)
    jobs = [(v, c, range(k, 64, 4)) for c in cfgs for v in VARIANTS for k in range(4)]
    build.source_hash()
    with mp.Pool(build.JOBS) as p:
        res = p.map(job, jobs, chunksize=1)
    broken = []
    seen = set()
    for (v, c, rs), x in res:
        if x[0] == "build":
            raise build.BuildError(x[1], x[2])
        if x[0] == "broken":
            broken.append("[%s] %s" % (c, x[1]))
            continue
        if x[0] == "incomplete":
            if (v, c, x[1]) not in seen:
                seen.add((v, c, x[1]))
                r.undecided.append(("incomplete", v, "[%s] %s" % (c, x[1])))
            F, counts = x[2], {}
        else:
            F, counts = x[1], x[2]
        for k, n in counts.items():
            r.count(k, n)
        r.ob(counts.get("paths", 0) + counts.get("loads", 0))
        if rs[0] == 0 and counts:
            r.sample("[%s] %s: %s sizes residues, %s paths, %s loads" % (c, v, len(rs), counts["paths"], counts["loads"]))
        for rule, loc, msg, trail in F:
            if (rule, v, loc[:1] if loc else None, c) in seen:
                continue
            seen.add((rule, v, loc[:1] if loc else None, c))
            r.finding(rule, loc_text(loc) if loc else "src/" + VARIANTS[v][0], "[%s] %s: %s" % (c, v, msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in trail])
    nsel = 0
    for c in cfgs:
        d = dispatch_job(c)
        for k, n in d["counts"].items():
            r.count(k, n)
        nsel += len(d["fns"]) + len(d["inits"])
        r.ob(sum(d["counts"].values()) + len(d["inits"]))
        r.sample("[%s] selection: initial %s; decided in %s" % (c, d["inits"], d["fns"]))
        for fn, msg in d["incomplete"]:
            r.undecided.append(("incomplete", fn, "[%s] %s" % (c, msg)))
        for rule, loc, msg, trail in d["findings"]:
            r.finding(rule, loc_text(loc) if loc else "src/lock_pool.cpp", "[%s] %s" % (c, msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in trail])
    if broken and not r.findings:
        raise Broken("; ".join(broken[:3]))
    r.need(nsel > 0 or r.findings, "selection of a search variant in src/lock_pool.cpp")


MANIFEST = {"A14": ("abstract interpretation of the compiled searches (half-entry equality atoms through shuffles, packs and masks; symbolic sizes; verified inductive loop invariants) and guard "
                    "dataflow over cpuid results for the variant selection",
                    "sizes are covered as 64*Q + s with symbolic Q for every residue s; code outside the modelled vector instructions is reported as undecided (exit 2), not as a violation")}
