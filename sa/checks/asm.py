"""Inline assembly contracts (A24)."""
import os, re
from . import check
from .. import build, llvm, opcheck, cases, asmx86, poolcheck
from ..report import loc_text, Broken
from ..engine import Incomplete
from .ops import jobs, processors, P64, P32, ALL, ALLCFG, NATIVE, COMMON_ASSUME, sample_cases
from .fence import UNIT, EACH, FenceDomain, run as fence_run
from ..cases import ORDERS

# the modifying operations of the extra x86 back-end, the 16 byte operations and everything of the "arch" back-end
TYPES = ["s8", "u8", "s16", "u16", "s32", "u32", "s64", "u64", "s128", "u128", "bool", "e32", "f32", "f64", "f80", "pi", "pv", "m3", "m8", "m12", "m16"]
MISC = """
#include <boost/atomic/thread_pause.hpp>
extern "C" __attribute__((noinline,used)) void pause1() { boost::atomics::thread_pause(); }
"""
X86FILES = ["include/boost/atomic/detail/core_arch_ops_gcc_x86.hpp", "include/boost/atomic/detail/extra_ops_gcc_x86.hpp", "include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp",
            "src/cpuid.hpp", "src/find_address_sse2.cpp", "include/boost/atomic/thread_pause.hpp"]
TORN = {"torn-load", "torn-store", "torn-rmw", "torn-cas", "torn-access", "out-of-object-access"}


class LintEngine:
    """just enough of the engine for Asm.contract()"""

    def __init__(self):
        self.out = []


def lint(i, callee):
    a = asmx86.Asm(None, i, callee)
    for o in a.ops:
        o.size = 64
    # immediates: an operand whose constraint allows a constant and that is a constant here
    k = 0
    for o in a.ops:
        if o.out and not o.ind:
            continue
        x = i.ops[k] if k < len(i.ops) else None
        if x is not None and getattr(x, "kind", None) == "int" and o.cls:
            from .. import terms as T
            o.arg = T.C(64, 0)
        k += 1
    a.contract()
    return a


def lint_module(r, m, cfg, seen):
    n = 0
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.insts():
            c = i.attr.get("callee")
            if i.op not in ("call", "invoke") or c is None or c.kind != "asm":
                continue
            n += 1
            key = (c.val, loc_text(i.loc))
            try:
                a = lint(i, c)
            except asmx86.AsmUnsupported as x:
                r.undecided.append(("incomplete", loc_text(i.loc), "unmodelled assembly: %s" % x))
                continue
            seen.add(loc_text(i.loc))
            r.ob(1)
            for rule, msg in sorted(a.findings):
                r.finding(rule, loc_text(i.loc), "[%s] %s: %s" % (cfg, llvm.demangle(f.name).split("(")[0], msg))
    return n


def source_blocks():
    out = []
    for p in X86FILES:
        q = os.path.join(build.REPO, p)
        if not os.path.exists(q):
            raise Broken("%s is gone" % p)
        for n, l in enumerate(open(q, errors="replace"), 1):
            if re.search(r"\b__asm__\b", l):
                out.append((p, n))
    return out


@check("A24")
def a24(r):
    r.rule("asm-undeclared-clobber", "every register an instruction of the block writes is an output or a clobber")
    r.rule("asm-input-modified", "no register declared as input only is written")
    r.rule("asm-missing-early-clobber", "an output written before the last use of an input or memory operand is early-clobber (or tied to that input), loops in the block included")
    r.rule("asm-undeclared-memory-write / -read", "memory the block accesses is an operand, or the block has a memory clobber")
    r.rule("asm-missing-lock", "every read-modify-write of shared memory has a lock prefix (xchg implies it)")
    r.rule("asm-not-volatile", "a block that accesses memory or orders accesses is volatile")
    r.rule("asm-width", "register operands are used at the width of the access, which is the width of the object")
    r.assumptions += COMMON_ASSUME
    r.assumptions.append("flags are always clobbered by inline assembly on x86 (both compilers), so no 'cc' clobber is required")
    q = r.tier == "quick"
    cf = ["def", "snb", "arch", "gcc", "noflag", "gccarch", "gccold"] if q else NATIVE
    jl = jobs(cf, ["atomic"] if q else ["atomic", "ref", "ipc", "ipcref"], TYPES if q else ALL, "one", ipccfgs=NATIVE)
    jl = [j for j in jl if opcheck.lock_free(j[0], j[1], j[2])]
    jl += jobs(["arch"] if q else ["arch", "noflag", "gccarch"], ["flag"], ["flag"], "one")
    jl += processors(ALL, "all", refs=not q, quick=q) + jobs(P64 + P32 + ["sparc"], ["flag"], ["flag"], "all")
    sample_cases(r, jl)
    seen = set()
    nops = 0
    for res in opcheck.run(jl):
        cfg, ty, kind, mode, ops = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        r.count("operations analysed", res["cases"])
        r.count("paths", res["paths"])
        r.ob(len(res["asm"]))
        locs = set()
        for txt, cons, loc in res["asm"]:
            if loc:
                locs.add(loc_text((loc,)))
        seen |= locs
        nops += len(res["asm"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for f in res["findings"]:
            asp, _, _, title, rule, msg, loc, trail, _, _ = f
            if asp == "asm" or rule in TORN and loc_text(loc[:1]) in locs:
                r.finding(rule, loc_text(loc), "%s: %s" % (title, msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in trail])
    r.count("assembly blocks reached from operations", nops)
    # fences, pause, cpuid, vector code: contract rules on every block of the module
    text = UNIT % "".join(EACH % (o, o, o, o) for o in ORDERS) + MISC
    bcs = build.compile_many([{"text": build.CONFIGS[c][1] + text, "flags": build.CONFIGS[c][0], "name": "asm_" + c} for c in cf])
    n = 0
    for cfg, bc in zip(cf, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        m = llvm.Module(bc)
        k = lint_module(r, m, cfg, seen)
        r.need(k >= 2, "assembly blocks of fences and pause in %s" % cfg)
        n += k
        for p in ("tf_", "sf_"):
            for o in ORDERS:
                try:
                    dm, e = fence_run(m.functions[p + o])
                except Incomplete as x:
                    r.undecided.append(("incomplete", p + o, str(x)))
                    continue
                for rule, loc, msg in e.asm_findings:
                    r.finding(rule, loc_text(loc), "[%s] fence: %s" % (cfg, msg))
    for cfg, fl in (("def", ["-std=c++17"]), ("snb", ["-std=c++17", "-march=sandybridge"])):
        for src in ("lock_pool.cpp", "find_address_sse2.cpp", "find_address_sse41.cpp"):
            bc = build.compile_ir('#include "%s/src/%s"\n' % (build.REPO, src), fl + poolcheck.FLAGS + ["-I" + build.REPO + "/src"] + (["-msse4.1"] if "41" in src else []), name="asm_" + src)
            n += lint_module(r, llvm.Module(bc), cfg + " " + src, seen)
    r.count("assembly blocks of fences, pause, cpuid, vector code", n)
    r.need(any("cpuid.hpp" in x for x in seen), "the cpuid block")
    r.need(sum("core_arch_ops_gcc_x86" in x for x in seen) >= 20, "the assembly of core_arch_ops_gcc_x86.hpp")
    r.need(sum("extra_ops_gcc_x86" in x for x in seen) >= 20, "the assembly of extra_ops_gcc_x86.hpp")
    r.count("distinct assembly sites covered", len(seen))
    src = source_blocks()
    inner = {x.split(" < ")[0] for x in seen}
    miss = ["%s:%d" % b for b in src if "%s:%d" % b not in inner]
    r.count("assembly statements in the x86 source files", len(src))
    r.count("of these not compiled in any analysed configuration", len(miss))
    r.sample("not compiled here (32-bit, other compilers): " + ", ".join(miss[:60]))
    for x in sorted(seen)[::6]:
        r.sample(x)


MANIFEST = {"A24": ("inline-assembly contract rules over every block (x86, AArch64, ARM, PowerPC, SPARC) reached from any operation: operand and clobber lists against an abstract interpretation of the instructions", "instruction semantics of the modelled subset of each processor")}
