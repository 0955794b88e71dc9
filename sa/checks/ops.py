"""Properties decided by the operation analysis (sa/effects.py)."""
from . import check
from .. import opcheck, cases, build
from ..report import loc_text, Broken

ALLCFG = ["def", "snb", "fb", "arch", "gcc", "noflag", "gccb", "gccfb", "gccarch", "gccold"]
NATIVE = ["def", "snb", "arch", "gcc", "noflag", "gccb", "gccarch", "gccold"]
# processors without a dedicated back-end
PORTABLE = ["port", "sync"]
INTS = [k for k, t in cases.TYPES.items() if t.cat == "int"]
ENUMS = [k for k, t in cases.TYPES.items() if t.cat == "enum"]
FPS = [k for k, t in cases.TYPES.items() if t.cat == "fp"]
PTRS = [k for k, t in cases.TYPES.items() if t.cat == "ptr"]
VPTRS = [k for k, t in cases.TYPES.items() if t.cat == "vptr"]
OTHER = [k for k in cases.TYPES if cases.TYPES[k].cat != "flag" and k not in INTS and k not in PTRS and k not in FPS and k not in ENUMS]
ALL = [k for k, t in cases.TYPES.items() if t.cat != "flag"]
MOVE_OPS = {"load", "store", "exchange", "operator T", "operator=", "operator= volatile", "load volatile", "compare_exchange_strong", "compare_exchange_weak"}
RMW_TITLES = "fetch_/plain/opaque_/_and_test/bit_test/operator forms"


def jobs(cfgs, kinds, types, mode, ops=None, ipccfgs=("def", "snb")):
    out = []
    for c in cfgs:
        for k in kinds:
            if k in ("ipc", "ipcref", "ipcflag") and c not in ipccfgs:
                continue
            for t in (["flag"] if k in cases.FLAGS else types):
                if opcheck.t_padded(t) and c not in opcheck.CLEARS_PADDING:
                    continue
                if opcheck.supported(c, t, k):
                    out.append((c, t, k, mode, ops))
    return out


VALUE_RULES = {"no-update", "no-observation", "cas-fail-writes", "more-than-one-update", "update-not-rmw", "update-not-cas", "load-modifies", "out-of-object-access", "no-return"}


def relevant(prop, f, lockfree):
    asp, ty, op, title, rule, msg, loc, trail, mode, stale = f
    cat = cases.TYPES[ty].cat
    if prop == "A01":
        return lockfree and (asp == "atomic" or stale and asp == "value" or asp == "asm" and rule == "asm-missing-lock")
    if prop == "A07":
        return not lockfree and (asp == "atomic" or stale and asp == "value")
    if prop == "A06":
        return asp == "order"
    if prop == "A18":
        return asp == "pad" or rule == "cas-spurious" or rule == "cas-compare"
    if prop == "A23":
        return cat == "flag"
    if prop == "A24":
        return asp == "asm"
    isval = asp == "value" or asp == "atomic" and rule in VALUE_RULES or rule == "tail-not-extended"
    if not isval:
        return False
    move = op in MOVE_OPS
    if prop == "A05":
        return move
    if prop == "A03" and cat == "fp" or prop == "A04" and cat in ("ptr", "vptr"):
        return True
    if move:
        return False
    if prop == "A02":
        return cat in ("int", "enum")
    return False


def drive(r, jl, want=None, undecided_aspects=("value",), per_case=1):
    """run the jobs, register obligations and findings relevant to r.prop"""
    R = opcheck.run(jl)
    total = 0
    for res in R:
        cfg, ty, kind, mode, ops = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        if res["cases"] == 0 and not res["incomplete"]:
            raise Broken("no operation instantiated for %s" % (res["job"],))
        total += res["cases"]
        for k in ("cases", "paths", "states"):
            r.count({"cases": "operations analysed", "paths": "returning paths judged", "states": "abstract states"}[k], res[k])
        for k, n in res["kinds"].items():
            r.count("operations with access kind " + k, n)
        r.ob(res["paths"] * per_case)
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for f in res["findings"]:
            if f[0] == "undecided":
                if "value" in undecided_aspects and undecided_rel(r.prop, f):
                    r.undecided.append((f[4], loc_text(f[6]), "%s: %s" % (f[3], f[5])))
                continue
            if relevant(r.prop, f, res["lockfree"]):
                rule = f[4]
                if cfg in opcheck.WIDE and cases.TYPES[ty].size < opcheck.WIDE[cfg]:
                    rule = "%s/%s/%s" % (cfg, f[2], f[4])
                r.finding(rule, loc_text(f[6]), "%s: %s" % (f[3], f[5]), ["%s  %s" % (t[0], loc_text(t[1])) for t in f[7]])
    return R


def undecided_rel(prop, f):
    g = ("value",) + f[1:]
    return relevant(prop, g, True) or relevant(prop, g, False)


def sample_cases(r, jl):
    for c, t, k, mode, ops in jl[:: max(1, len(jl) // 8)]:
        cs = cases.gen(t, k, mode, ops=ops)
        if cs:
            x = cs[len(cs) // 2]
            r.sample("[%s] %s : %s" % (c, x.title(), x.expr))


# the 16 byte code paths of compilers without vector moves and flag outputs
OLD16 = jobs(["gccold"], ["atomic", "ref"], ["s128", "u128", "m16"], "all")



def portable(types, mode="one", ops=None):
    return jobs(PORTABLE, ["atomic", "ref"], types, mode, ops)


# the back-ends of other processors: analysed for every order, on objects of the sizes they implement
P64 = ["a64", "a64lse", "a64g", "ppc", "ppcg"]
P32 = ["arm7", "arm7g", "arm8", "arm8g", "i386", "i386s", "i386pic"]
WORD = ["arm6", "ppc7", "sparc"]     # no 8 and 16-bit accesses: small atomics live in a word
PTYPES = ["u8", "s8", "u16", "s16", "u32", "s32", "sll", "ull", "u128", "s128", "bool", "e32", "f32", "f64", "pi", "p12", "pv", "m3", "m4", "m8", "m12", "m16", "b7"]


def processors(types, mode="all", ops=None, refs=False, quick=True):
    """operations of the other processors' back-ends"""
    ts = [t for t in PTYPES if t in types]
    if quick:
        ts = [t for t in ts if t not in ("s8", "u16", "u32", "sll", "m8", "b7", "pv")]
    jl = jobs(P64, ["atomic", "ref"] if refs else ["atomic"], ts, mode, ops)
    jl += jobs(P32, ["atomic"], ts, mode, ops)
    jl += jobs(WORD, ["atomic"], sorted(set(ts) | {"s8", "u16"} & set(types)), mode, ops)
    return [j for j in jl if opcheck.lock_free(j[0], j[1], j[2])]


COMMON_ASSUME = ["sync configuration: __sync_lock_test_and_set is taken to be a full read-modify-write barrier, as on x86 and as the header states",
                 "pointer arguments of one call do not alias the atomic object (the API does not allow it)",
                 "configurations: " + ", ".join("%s = %s" % (k, " ".join(v[0]) + (" + gcc feature macros" if v[1] else "")) for k, v in build.CONFIGS.items())]


@check("A01")
def a01(r):
    r.rule("single-access", "every path of every operation performs at most one modification of the shared object, by one atomic instruction covering exactly the object; "
           "the reported or stored value depends on no other read of the object (typestate over the LLVM IR of each instantiated operation, inline assembly interpreted)")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    jl = jobs(["def", "snb", "arch", "gcc", "noflag"] if q else NATIVE, ["atomic", "ref", "ipc", "ipcref"], ALL, "all", ipccfgs=("snb",) if q else NATIVE)
    jl += OLD16 if q else []
    jl += jobs(["def", "snb", "arch", "gcc"] if q else NATIVE, ["flag", "ipcflag"], ["flag"], "all", ipccfgs=NATIVE)
    jl += portable(ALL, "one" if q else "all") + jobs(PORTABLE, ["flag"], ["flag"], "all")
    jl = [j for j in jl if opcheck.lock_free(j[0], j[1], j[2])]
    jl += processors(ALL, refs=not q, quick=q) + jobs(P64 + P32 + ["sparc"], ["flag"], ["flag"], "all")
    sample_cases(r, jl)
    drive(r, jl)


@check("A02")
def a02(r):
    r.rule("value", "for each path of each integral and enum operation the written value, as a canonical bit-vector term over the observed value and the argument, equals the documented function, "
           "and so does the returned value")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    jl = jobs(["def", "snb", "fb", "arch", "gcc", "noflag"] if q else ALLCFG, ["atomic", "ref", "ipc", "ipcref"], INTS + ENUMS, "all", ipccfgs=("snb",) if q else NATIVE) + ([j for j in OLD16 if j[1] in INTS] if q else [])
    jl += portable(INTS + ENUMS, "one" if q else "all") + processors(INTS + ENUMS, refs=not q, quick=q)
    sample_cases(r, jl)
    drive(r, jl)


@check("A03")
def a03(r):
    r.rule("value", "as A02, floating-point operators uninterpreted except that negation is the sign flip and addition commutes; moves are bit-exact")
    r.assumptions += COMMON_ASSUME
    r.assumptions.append("the compiler's fadd/fsub instruction on the type is 'the ordinary floating-point expression'")
    jl = jobs(ALLCFG, ["atomic", "ref", "ipc", "ipcref"], FPS, "all", ipccfgs=NATIVE) + portable(FPS) + processors(FPS, refs=True, quick=False)
    sample_cases(r, jl)
    drive(r, jl)


@check("A04")
def a04(r):
    r.rule("value", "as A02: the stored pointer is the observed pointer plus sizeof(element) times the displacement; moves preserve the pointer")
    r.assumptions += COMMON_ASSUME
    jl = jobs(ALLCFG, ["atomic", "ref", "ipc", "ipcref"], PTRS + VPTRS, "all", ipccfgs=NATIVE) + portable(PTRS + VPTRS) + processors(PTRS + VPTRS, refs=True, quick=False)
    sample_cases(r, jl)
    drive(r, jl)


@check("A05")
def a05(r):
    r.rule("value", "load/store/exchange/compare_exchange: value moved whole; a success is conditional on the expected representation and stores desired; a failure stores nothing and reports "
           "the observed value; strong fails only when the path establishes inequality")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    ops = tuple(sorted(MOVE_OPS))
    jl = jobs(["def", "snb", "fb", "arch", "gcc", "noflag", "gccfb"] if q else ALLCFG, ["atomic", "ref", "ipc", "ipcref"], ALL, "all", ops, ipccfgs=("snb",) if q else NATIVE) + ([j[:4] + (ops,) for j in OLD16] if q else []) + portable(ALL, "one" if q else "all", ops)
    jl += processors(ALL, "all", ops, refs=True, quick=False)
    sample_cases(r, jl)
    drive(r, jl)


@check("A06")
def a06(r):
    r.rule("order", "the ordering of the access that linearises each path (atomic instruction ordering joined with fences, x86-TSO rules for inline assembly) includes the ordering required by the "
           "requested order for that kind of operation; failure paths are held to the failure order; the internal lock is acquired and released with acquire and release (operations that are not lock-free)")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    qt = ["s8", "s16", "s32", "s64", "s128", "bool", "e32", "f32", "f64", "f80", "pi", "pv", "m3", "m8", "m12", "m16", "m24"]
    jl = jobs(["def", "snb", "fb", "arch"] if q else ALLCFG, ["atomic", "ref"] if q else ["atomic", "ref", "ipc", "ipcref"], qt if q else ALL, "all")
    if q:
        jl += jobs(["snb"], ["ipc", "ipcref"], qt, "one") + jobs(["gcc"], ["atomic", "ref"], qt, "one")
    jl += jobs(["def", "snb", "fb", "arch", "gcc"] if q else ALLCFG, ["flag"], ["flag"], "all") + jobs(["snb"] if q else NATIVE, ["ipcflag"], ["flag"], "all", ipccfgs=NATIVE)
    jl += portable(qt if q else ALL, "all") + jobs(PORTABLE, ["flag"], ["flag"], "all")
    jl += processors(ALL, refs=not q, quick=q) + jobs(P64 + P32 + ["sparc"], ["flag"], ["flag"], "all")
    sample_cases(r, jl)
    drive(r, jl)
    # what orders the operations that take the internal lock
    from . import pool
    pool.drive(r, pool.quick_cfgs(r), lambda p, fn, f: f.rule in ("acquire-order", "release-order"))


@check("A07")
def a07(r):
    r.rule("locked", "on every path every access to the object lies between one lock acquisition and one release of that lock; value and update come from the content read inside; nothing is "
           "held on return and nothing is acquired twice")
    r.rule("lock", "the lock's own protocol, as A09")
    r.assumptions += COMMON_ASSUME
    jl = jobs(["fb", "gccfb", "def", "snb"], ["atomic", "ref"], ALL, "all") + jobs(["fb", "gccfb"], ["flag"], ["flag"], "all")
    jl = [j for j in jl if not opcheck.lock_free(j[0], j[1], j[2])]
    sample_cases(r, jl)
    drive(r, jl)
    from . import pool
    pool.drive(r, pool.quick_cfgs(r), lambda p, fn, f: p == "A09")


@check("A18")
def a18(r):
    r.rule("padding", "after every update the bits of the representation that are not value bits are the constant 0, for arbitrary padding contents of the arguments; comparisons use the padded-with-zero "
           "expected value")
    r.rule("padded wait", "no path of a wait on a type with padding returns without a timeout, or blocks, unless the representation of the object and of the given value with zero padding are "
           "known to differ, respectively to agree; judged where the same wait on types without padding has no such finding")
    r.assumptions += COMMON_ASSUME
    r.assumptions.append("structure padding is claimed only where the compiler has a padding-clearing builtin (documented limitation)")
    types = [k for k, t in cases.TYPES.items() if k in ALL and t.pads or k in ALL and (t.vbits < 8 * t.size or t.size & (t.size - 1))]
    jl = jobs(ALLCFG, ["atomic", "ref", "ipc", "ipcref"], types + ["bool", "f64"], "all", ipccfgs=NATIVE)
    sample_cases(r, jl)
    drive(r, jl)
    from .static import constructors
    constructors(r, ["def", "fb", "gcc"] if r.tier == "quick" else ALLCFG, True, types)
    from .wait import padded_waits
    padded_waits(r)
