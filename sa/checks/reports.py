"""A16: what the library says about lock-freedom and native waits, against what its operations do."""
from . import check
from .. import build, cases, effects, llvm, opcheck, staticinit as S, terms as T, waitcheck as W
from ..engine import Engine, State
from ..report import loc_text, Broken
from . import ops, wait
from .ops import ALL, ALLCFG, NATIVE, COMMON_ASSUME

# the capability macro family documented for each value type
MACRO = {"s8": "INT8", "u8": "INT8", "s16": "INT16", "u16": "INT16", "s32": "INT32", "u32": "INT32", "s64": "INT64", "u64": "INT64", "s128": "INT128", "u128": "INT128",
         "ch": "CHAR", "c16": "CHAR16_T", "c32": "CHAR32_T", "wch": "WCHAR_T", "sll": "LLONG", "ull": "LLONG", "bool": "BOOL", "f32": "FLOAT", "f64": "DOUBLE", "f80": "LONG_DOUBLE",
         "pi": "POINTER", "pc": "POINTER", "p12": "POINTER", "p40": "ADDRESS", "pv": "ADDRESS", "pcv": "POINTER", "flag": "FLAG"}
ALSO = {"s16": "SHORT", "s32": "INT", "s64": "LONG", "u16": "SHORT", "u32": "INT", "u64": "LONG"}


def unit(cfg, jobs):
    fl, pre = build.CONFIGS[cfg]
    s = [pre, "#include <boost/atomic.hpp>", "#include <cstddef>"]
    out = []
    for k in ALL:
        if cases.TYPES[k].decl and cases.TYPES[k].decl not in s:
            s.append(cases.TYPES[k].decl)
    for k, kind in jobs:
        t = cases.TYPES[k]
        ipc = kind in ("ipc", "ipcref", "ipcflag")
        ms = [m for m in (MACRO.get(k), ALSO.get(k)) if m]
        s.append("namespace r_%s_%s { typedef %s; typedef %s OBJ;" % (kind, k, cases.tdef(t.cpp, "T"), cases.obj_type(kind, t.cpp)))
        vals = ["OBJ::is_always_lock_free", "OBJ::always_has_native_wait_notify"]
        for m in ms:
            vals += ["BOOST_ATOMIC_%s_LOCK_FREE" % m, "BOOST_ATOMIC_HAS_NATIVE_%s_%sWAIT_NOTIFY" % (m, "IPC_" if ipc else "")]
        s.append('extern "C" const int q_%s_%s[] = { %s };' % (kind, k, ", ".join("(int)(%s)" % v for v in vals)))
        q = "const" if kind in ("ref", "ipcref") else "const volatile"
        for f in ("is_lock_free", "has_native_wait_notify"):
            s.append('extern "C" __attribute__((noinline,used)) bool f_%s_%s_%s(OBJ %s* o) { return o->%s(); }' % (f, kind, k, q, f))
        s.append("}")
        out.append((k, kind, ms))
    return "\n".join(s) + "\n", out


def const_result(m, name):
    """the set of values a nullary report function can return (None: not a constant)"""
    fn = m.functions.get(name)
    if fn is None or fn.decl:
        raise Broken("report function %s vanished" % name)
    dm = effects.OpDomain(("P", T.S(64, ("no object",))), 8, T.S(64, "OLD"), False)
    e = Engine(fn, dm)
    dm.e = e
    e.run(State())
    out = set()
    loc = ()
    for s, rv, i in dm.finals:
        v = rv if rv[1] == 1 else T.trunc(rv, 1)
        out.add(v[2] if T.isc(v) else None)
        loc = i.loc
    return out, loc


def reports(r, cfg, pairs):
    text, out = unit(cfg, pairs)
    m = llvm.Module(build.compile_ir(text, build.CONFIGS[cfg][0], name="reports_" + cfg))
    rep = {}
    for k, kind, ms in out:
        g = m.globals.get("q_%s_%s" % (kind, k))
        if g is None or not g.ops or g.ops[0].kind not in ("agg", "aggzero"):
            raise Broken("reported constants of %s %s vanished" % (kind, k))
        b = S.const_bytes(g.ops[0])
        vals = [int.from_bytes(bytes(b[4 * i:4 * i + 4]), "little") for i in range(len(b) // 4)]
        title = "[%s] %s" % (cfg, cases.obj_type(kind, cases.TYPES[k].cpp))
        lf, nw = vals[0], vals[1]
        for f, c, cn in (("is_lock_free", lf, "is_always_lock_free"), ("has_native_wait_notify", nw, "always_has_native_wait_notify")):
            res, loc = const_result(m, "f_%s_%s_%s" % (f, kind, k))
            r.ob()
            if res != {c} and (c == 1 or f == "is_lock_free"):
                r.finding("report-mismatch", loc_text(loc), "%s: %s() can return %s although %s is %s" % (title, f, sorted(map(str, res)), cn, bool(c)))
            if None in res or 1 in res:
                rep[k, kind, f] = True
        for j, mname in enumerate(ms):
            a, b2 = vals[2 + 2 * j], vals[3 + 2 * j]
            for mac, v, c, cn in (("BOOST_ATOMIC_%s_LOCK_FREE" % mname, a, lf, "is_always_lock_free"), ("BOOST_ATOMIC_HAS_NATIVE_%s_..WAIT_NOTIFY" % mname, b2, nw, "always_has_native_wait_notify")):
                r.ob()
                if v not in (0, 1, 2) or (v == 2) != bool(c):
                    r.finding("macro-mismatch", mac, "%s: %s is %d although %s is %s" % (title, mac, v, cn, "true" if c else "false"))
        r.count("report sets read", 1)
        rep[k, kind] = (bool(lf), bool(nw))
    return rep


WITNESS = [("g++", ["-std=c++11"]), ("g++", ["-std=gnu++20", "-march=sandybridge"]), ("g++", ["-std=c++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"]),
           ("g++", ["-std=c++17", "-march=sandybridge", "-DBOOST_ATOMIC_NO_CMPXCHG16B"]), ("g++", ["-std=c++17", "-DBOOST_ATOMIC_NO_FLOATING_POINT"]),
           ("clang++-18", ["-std=c++11"]), ("clang++-18", ["-std=c++20", "-mcx16"]), ("clang++-18", ["-std=c++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"]),
           ("clang++-18", ["-std=c++17", "-march=sandybridge"])]


def macro_witness(r):
    """the macros and the constants agree under the real compilers, in every mode"""
    jobs, meta = [], []
    tl = [(k, m) for k in list(MACRO) for m in (MACRO[k], ALSO.get(k)) if m and k != "flag"]
    for comp, fl in WITNESS:
        s = ["#include <boost/atomic.hpp>"]
        fp = not any("NO_FLOATING" in f for f in fl)
        for k, m in tl + [("c8", "CHAR8_T")]:
            if k == "c8":
                if "20" not in fl[0]:
                    continue
                cpp, decl = "char8_t", ""
            else:
                if cases.TYPES[k].cat == "fp" and not fp:
                    continue
                cpp, decl = cases.TYPES[k].cpp, cases.TYPES[k].decl
            if decl and decl not in s:
                s.append(decl)
            s.append("namespace m_%s_%s { typedef %s;" % (k, m, cases.tdef(cpp, "T")))
            for tpl in ("atomic", "atomic_ref"):
                s.append("static_assert(boost::%s< T >::is_always_lock_free == (BOOST_ATOMIC_%s_LOCK_FREE == 2), \"%s %s lock-free\");" % (tpl, m, tpl, m))
            for tpl, p in (("atomic", ""), ("atomic_ref", ""), ("ipc_atomic", "IPC_"), ("ipc_atomic_ref", "IPC_")):
                s.append("static_assert(boost::%s< T >::always_has_native_wait_notify == (BOOST_ATOMIC_HAS_NATIVE_%s_%sWAIT_NOTIFY == 2), \"%s %s native wait\");" % (tpl, m, p, tpl, m))
            s.append("}")
        s.append('static_assert(boost::atomic_flag::is_always_lock_free == (BOOST_ATOMIC_FLAG_LOCK_FREE == 2) && boost::atomic_flag::always_has_native_wait_notify == (BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY == 2) && '
                 'boost::ipc_atomic_flag::always_has_native_wait_notify == (BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY == 2), "flag");')
        jobs.append((comp, "\n".join(s) + "\n", fl + ["-w"]))
        meta.append(("%s %s" % (comp, " ".join(fl)), len(s)))
    for (title, n), (rc, se) in zip(meta, build.syntax_many(jobs)):
        r.ob(n)
        r.count("macro witnesses compiled", n)
        if rc:
            err = [l for l in se.splitlines() if "error" in l][:3]
            r.finding("macro-mismatch", title, "%s: %s" % (title, "; ".join(err)))


@check("A16")
def a16(r):
    r.rule("lock-free", "where the compiled value of is_always_lock_free (equal to is_lock_free() and to the type's capability macro) is true no operation takes a pool lock or calls an out-of-line "
           "atomic function, where it is false every operation takes one")
    r.rule("native-wait", "where always_has_native_wait_notify (equal to the function and the macro) is true every blocking path of every wait blocks in the futex system call on the object itself")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    cfgs = ["def", "snb", "fb", "gcc"] if q else ALLCFG
    kinds = ["atomic", "ref", "ipc", "ipcref", "flag", "ipcflag"]
    jl = ops.jobs(cfgs, kinds, ALL, "sc", ipccfgs=cfgs)
    rep = {}
    for c in cfgs:
        pairs = sorted({(t, k) for cc, t, k, _, _ in jl if cc == c})
        for key, v in reports(r, c, pairs).items():
            rep[(c,) + key] = v
    for res in opcheck.run(jl):
        cfg, ty, kind, mode, o = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        lf, nw = rep[cfg, ty, kind]
        title = "[%s] %s" % (cfg, cases.obj_type(kind, cases.TYPES[ty].cpp))
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        if not res["cases"] and not res["incomplete"]:
            raise Broken("no operation instantiated for %s" % title)
        r.ob(res["cases"])
        r.count("operations compared with the report", res["cases"])
        if lf and res["nlocked"]:
            r.finding("reported-lock-free-but-locks", title, "%s reports lock-free, yet %d of its %d operations take a pool lock" % (title, res["nlocked"], res["cases"]))
        if not lf and res["nlocked"] != res["cases"]:
            r.finding("reported-locked-but-not", title, "%s reports not lock-free, yet %d of its %d operations do not take the lock" % (title, res["cases"] - res["nlocked"], res["cases"]))
        lib = sorted(n for n in res.get("calls", ()) if "__atomic_" in n or "__sync_" in n)
        if lf and lib:
            r.finding("reported-lock-free-but-calls", title, "%s reports lock-free, yet its operations call %s, which may lock" % (title, ", ".join(lib)))
        # a reference to an object and the object itself
        o2 = {"ref": "atomic", "ipcref": "ipc"}.get(kind)
        t = cases.TYPES[ty]
        if o2 and (cfg, ty, o2) in rep and t.size == effects.storage_size(ty, "atomic"):
            r.ob()
            if rep[cfg, ty, o2] != rep[cfg, ty, kind]:
                r.finding("reference-mismatch", title, "%s and %s report different capabilities %s / %s" % (cases.obj_type(kind, t.cpp), cases.obj_type(o2, t.cpp), rep[cfg, ty, kind], rep[cfg, ty, o2]))
    wl = wait.jobs(cfgs if not q else ["def", "fb", "gcc"], kinds, wait.REPR, "sc")
    for res in W.run(wl):
        cfg, ty, kind, mode, o = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        key = (cfg, "flag" if kind in cases.FLAGS else ty, kind)
        if key not in rep:
            continue
        lf, nw = rep[key]
        title = "[%s] %s" % (cfg, W.KINDS[kind][0] % cases.TYPES[ty].cpp if "%s" in W.KINDS[kind][0] else W.KINDS[kind][0])
        r.ob(res["cases"])
        r.count("waits and notifies compared with the report", res["cases"])
        claimed = nw or rep.get(key + ("has_native_wait_notify",), False)
        if claimed and (res["blocks"] - {"futex", "none"} or "futex" not in res["blocks"]):
            r.finding("reported-native-wait-but-not", title, "%s reports native wait/notify, yet its waits block by: %s" % (title, ", ".join(sorted(res["blocks"]))))
        r.count("types reporting native wait" if claimed else "types not reporting native wait")
    macro_witness(r)
    r.need(any(v[0] for v in rep.values() if isinstance(v, tuple)) and any(not v[0] for v in rep.values() if isinstance(v, tuple)), "both lock-free and locked instances")
    r.sample("[snb] boost::atomic<unsigned __int128>: is_always_lock_free = 1, BOOST_ATOMIC_INT128_LOCK_FREE = 2, 0 of its operations lock")


MANIFEST = {"A16": ("compiled report constants compared with lock and blocking effects found by abstract interpretation of every operation and wait", "every value type and object kind; quick: four configurations")}
