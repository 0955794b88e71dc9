"""Storage: constant initialisation (A25), layout and construction (A17), the flag (A23)."""
from . import check
from .. import build, llvm, cases, opcheck, staticinit as S, ctorcheck
from ..report import loc_text, Broken
from . import ops, wait
from .ops import ALL, ALLCFG, NATIVE, COMMON_ASSUME

# types whose initialising constructor is documented to be constexpr (integers, bool, enums, binary floating point and
# classes without padding that fill their storage); the others are constant-initialised by default construction only
VALUE = {"int": "(T)37", "bool": "true", "enum": "(T)1", "fp": "T(1.5)"}
STRUCTS = {"m4": "T{ 3, 4 }", "m8": "T{ 3, 4 }", "m16": "T{ 3, 4 }"}


def const_value(k):
    t = cases.TYPES[k]
    if k in STRUCTS:
        return STRUCTS[k]
    if t.cat == "fp" and t.vbits < 8 * t.size:
        return None
    return VALUE.get(t.cat)


def usable(cfg, ty, kind):
    return opcheck.supported(cfg, ty, kind) and (not opcheck.t_padded(ty) or cfg in opcheck.CLEARS_PADDING)


def globals_unit(cfg, kinds=("atomic", "ipc")):
    """definitions of static objects -> (text, [(name, kind, type, what, reference global or None)])"""
    fl, pre = build.CONFIGS[cfg]
    s = [pre, "#include <boost/atomic.hpp>", "#include <cstddef>"]
    out = []
    for k in ALL:
        t = cases.TYPES[k]
        if t.decl and t.decl not in s:
            s.append(t.decl)
    for k in ALL:
        t = cases.TYPES[k]
        for kind in kinds:
            if not usable(cfg, k, kind):
                continue
            ns = "gs_%s_%s" % (kind, k)
            s.append("namespace %s { typedef %s; typedef %s OBJ;" % (ns, cases.tdef(t.cpp, "T"), cases.obj_type(kind, t.cpp)))
            s.append("OBJ dflt_%s; OBJ list_%s{};" % (ns, ns))
            out.append(("dflt_" + ns, kind, k, "default construction", None))
            out.append(("list_" + ns, kind, k, "empty braces", None))
            v = const_value(k)
            if v is not None:
                s.append("extern T plain_%s; T plain_%s = %s; OBJ value_%s(%s); OBJ brace_%s{%s};" % (ns, ns, v, ns, v, ns, v))
                out.append(("value_" + ns, kind, k, "construction from a constant", "plain_" + ns))
                out.append(("brace_" + ns, kind, k, "list-initialisation from a constant", "plain_" + ns))
            s.append("}")
    for kind in cases.FLAGS:
        if not opcheck.supported(cfg, "flag", kind):
            continue
        o = cases.KINDS[kind][0]
        s.append("%s flag_dflt_%s; %s flag_list_%s{}; %s flag_macro_%s = BOOST_ATOMIC_FLAG_INIT;" % (o, kind, o, kind, o, kind))
        for w in ("dflt", "list", "macro"):
            out.append(("flag_%s_%s" % (w, kind), kind, "flag", {"dflt": "default construction", "list": "empty braces", "macro": "BOOST_ATOMIC_FLAG_INIT"}[w], None))
    return "\n".join(s) + "\n", out


def find_global(m, name):
    for n, g in m.globals.items():
        if n == name or n.endswith("%d%sE" % (len(name), name)):
            return g
    return None


def static_objects(r, cfgs, rule_content=True, only=None):
    """every object of `globals_unit` is constant-initialised with the right bytes"""
    jobs = [(c,) + globals_unit(c) for c in cfgs]
    bcs = build.compile_many([{"text": t, "flags": build.CONFIGS[c][0], "name": "statics_" + c, "base": S.O0} for c, t, _ in jobs])
    for (c, text, objs), bc in zip(jobs, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        m = llvm.Module(bc)
        written = {}
        for f in m.functions.values():
            if f.decl or not (f.name.startswith("__cxx_global_var_init") or f.name.startswith("_GLOBAL__sub_I")):
                continue
            for i in f.insts():
                for o in i.ops:
                    b = llvm.base_of(o) if o.ty.kind == "ptr" else None
                    if b is not None and b.kind == "global":
                        written.setdefault(b.name, i.loc)
        for name, kind, k, what, ref in objs:
            if only is not None and k not in only:
                continue
            g = find_global(m, name)
            if g is None or not g.ops:
                raise Broken("static object %s vanished from the module" % name)
            title = "[%s] %s: %s" % (c, cases.obj_type(kind, cases.TYPES[k].cpp), what)
            r.ob()
            r.count("static objects analysed")
            if g.name in written:
                r.finding("dynamic-initialisation", loc_text(written[g.name]), title + " needs a dynamic initialiser, so the object is not usable before it ran")
                continue
            got = S.const_bytes(g.ops[0])
            if ref is None:
                want = [0] * len(got)
            else:
                want = S.const_bytes(find_global(m, ref).ops[0])
                want = want + [0] * (len(got) - len(want))
            n = cases.TYPES[k].size
            r.check(got[:n] == want[:n], "initial-content", name, title + " holds the bytes %s, must be %s" % (got[:n], want[:n]))
    return len(jobs)


POOL_SRC = ["lock_pool.cpp", "find_address_sse2.cpp", "find_address_sse41.cpp"]


def pool_statics(r, cfgs, sizes=()):
    for c, log2 in [(c, None) for c in cfgs] + [("def", n) for n in sizes]:
        fl, pre = build.CONFIGS[c]
        if log2 is not None:
            # a table of another size
            fl = list(fl) + ["-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=%d" % log2]
        for src in POOL_SRC if log2 is None else ["lock_pool.cpp"]:
            flags = list(fl) + ["-DBOOST_ATOMIC_SOURCE", "-I" + build.REPO + "/src"]
            if "sse2" in src or "sse41" in src:
                flags += ["-msse4.1", "-DBOOST_ATOMIC_USE_SSE2", "-DBOOST_ATOMIC_USE_SSE41"]
            else:
                flags += ["-DBOOST_ATOMIC_USE_SSE2", "-DBOOST_ATOMIC_USE_SSE41"]
            text = pre + '\n#include "%s/src/%s"\n' % (build.REPO, src)
            m = llvm.Module(build.compile_ir(text, flags, name="pool_" + c, base=S.O0))
            dyn = S.dynamic(m)
            r.ob()
            r.count("library source files analysed")
            for what, loc in dyn:
                r.finding("dynamic-initialisation", loc_text(loc), "[%s] %s: %s, so the library's own state is not ready before that ran (or is gone afterwards)" % (c, src, what))
            nl = 0
            for g in m.globals.values():
                a = g.attr or {}
                if not g.ops or a.get("const") or g.name.startswith("llvm."):
                    continue
                r.ob()
                r.count("writable internal static objects")
                b = S.const_bytes(g.ops[0]) if g.ops[0].ty.size else []
                if len(b) >= (4096 if log2 is None else 64 << log2):
                    nl += 1
                    bad = [i for i, x in enumerate(b) if x != 0]
                    r.check(not bad, "lock-table-content", g.name, "[%s] the lock table's initial content is not 'every lock free and no waiters' (byte %s is %s)" % (c, bad[:1], b[bad[0]] if bad else 0))
                elif g.ops[0].kind in ("func", "cexpr"):
                    r.count("internal function pointers with a constant initial target")
                elif g.ops[0].kind in ("null",):
                    r.finding("null-internal-pointer", src, "[%s] internal pointer %s starts null" % (c, g.name))
            if src == "lock_pool.cpp" and nl != 1:
                raise Broken("lock table not found among the globals of lock_pool.cpp (%d candidates)" % nl)


def op_guards(r, cfgs, types):
    """no operation uses a lazily initialised or thread-local internal object"""
    jobs = []
    for c in cfgs:
        for k in types:
            for kind in ("atomic", "ref"):
                if usable(c, k, kind):
                    jobs.append((c, k, kind, cases.gen(k, kind, "one")))
        if opcheck.supported(c, "flag", "flag"):
            jobs.append((c, "flag", "flag", cases.gen("flag", "flag", "one")))
    bcs = build.compile_many([{"text": cases.unit(cs, build.CONFIGS[c][1]), "flags": build.CONFIGS[c][0], "name": "o0_%s_%s" % (c, k), "base": S.O0} for c, k, kind, cs in jobs])
    for (c, k, kind, cs), bc in zip(jobs, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        m = llvm.Module(bc)
        r.ob(len(cs))
        r.count("operations compiled at -O0", len(cs))
        for what, loc in S.dynamic(m):
            r.finding("lazy-initialisation", loc_text(loc), "[%s] %s: %s" % (c, cases.obj_type(kind, cases.TYPES[k].cpp), what))


LEVELS = [("g++", "__constinit", ["-std=c++11"]), ("g++", "__constinit", ["-std=gnu++20", "-march=sandybridge"]),
          ("clang++-18", "[[clang::require_constant_initialization]]", ["-std=c++11"]), ("clang++-18", "[[clang::require_constant_initialization]]", ["-std=c++20"])]


def constinit_witness(r):
    """the same objects under the real g++ and clang, with the compiler's own constant-initialisation check"""
    jobs, meta = [], []
    for comp, attr, fl in LEVELS:
        for extra in ([], ["-DBOOST_ATOMIC_FORCE_FALLBACK"]):
            s = ["#include <boost/atomic.hpp>", "#include <type_traits>"]
            for k in ALL:
                t = cases.TYPES[k]
                if t.decl and t.decl not in s:
                    s.append(t.decl)
            n = 0
            for k in ALL:
                t = cases.TYPES[k]
                if t.pads and comp != "g++":
                    continue
                s.append("namespace g_%s { typedef %s; typedef boost::atomic< T > OBJ;" % (k, cases.tdef(t.cpp, "T")))
                s.append("%s OBJ d; static_assert(std::is_trivially_destructible< OBJ >::value, \"destructor must do nothing\");" % attr)
                if not extra and opcheck.lock_free("def", k, "atomic"):
                    s.append("%s boost::ipc_atomic< T > di;" % attr)
                n += 3
                v = const_value(k)
                if v is not None:
                    s.append("%s OBJ v(%s); %s OBJ w{%s};" % (attr, v, attr, v))
                    n += 2
                s.append("}")
            s.append("%s boost::atomic_flag f; %s boost::atomic_flag f2 = BOOST_ATOMIC_FLAG_INIT;" % (attr, attr))
            jobs.append((comp, "\n".join(s) + "\n", fl + extra + ["-w"]))
            meta.append(("%s %s" % (comp, " ".join(fl + extra)), n + 2))
    for (title, n), (rc, se) in zip(meta, build.syntax_many(jobs)):
        r.ob(n)
        r.count("constinit witnesses compiled", n)
        if rc:
            err = [l for l in se.splitlines() if "error" in l][:3]
            r.finding("not-constant-initialised", title, "%s rejects a constant-initialised static object: %s" % (title, "; ".join(err)))


@check("A25")
def a25(r):
    r.rule("constant-initialisation", "every static object of a library type (default-constructed, or from a constant where the constructor is constexpr) and every internal static object is emitted by the "
           "front end at -O0 with a constant initialiser of the right content, no llvm.global_ctors entry, no guard variable, no thread-local wrapper; constinit is accepted by g++ and clang")
    r.assumptions += COMMON_ASSUME
    r.trusted.append("A13 for the state the exit handler leaves the lock pool in (it stays usable)")
    q = r.tier == "quick"
    static_objects(r, ["def", "fb", "gcc"] if q else ALLCFG)
    pool_statics(r, ["def", "gcc", "snb", "arch"] if q else ["def", "gcc", "snb", "arch", "gccb", "noflag", "gccarch"], [0, 1, 9] if q else [0, 1, 2, 3, 5, 7, 9, 10, 12])
    op_guards(r, ["def", "fb"], ["s32", "u64", "f64", "m12", "pi"] if q else ALL)
    constinit_witness(r)
    r.sample("static boost::atomic<int> x(37); -> @x = global { i32 37 }, no initialiser function")


@check("A23")
def a23(r):
    r.rule("flag", "test_and_set is one atomic read-modify-write storing exactly 1 and returning whether the observed content was 1, clear one atomic store of 0, test one atomic load; orders as requested; "
           "volatile and non-volatile; wait/notify as A10/A11; a static flag is the constant 0")
    r.assumptions += COMMON_ASSUME
    jl = ops.jobs(ALLCFG, ["flag", "ipcflag"], [], "all", ipccfgs=ALLCFG) + ops.jobs(ops.P64 + ops.P32 + ["sparc"], ["flag"], [], "all")
    ops.sample_cases(r, jl)
    ops.drive(r, jl)
    q = r.tier == "quick"
    wl = wait.jobs(["def", "fb", "gcc"] if q else ALLCFG, ["flag", "ipcflag"], [], "one" if q else "all")
    wait.drive(r, wl)
    static_objects(r, ["def", "fb", "gcc"] if q else ALLCFG, only=["flag"])


LAYOUT = r"""
#include <boost/atomic.hpp>
#include <type_traits>
#include <cstddef>
template<class A, class T, std::size_t S> struct layout {
  static_assert(sizeof(A) >= sizeof(T) && alignof(A) >= alignof(T), "storage smaller or less aligned than the value");
  static_assert(!A::is_always_lock_free || (sizeof(A) == S && alignof(A) >= S), "lock-free object whose size or alignment is not that of its storage");
  static_assert(!std::is_copy_constructible<A>::value && !std::is_move_constructible<A>::value, "atomic objects must not be copyable");
  static_assert(!std::is_copy_assignable<A>::value && !std::is_move_assignable<A>::value, "atomic objects must not be assignable");
  static_assert(!std::is_assignable<volatile A&, A const&>::value && !std::is_assignable<volatile A&, A&>::value && !std::is_assignable<A&, A&>::value, "atomic objects must not be assignable");
  static_assert(!std::is_constructible<A, A&>::value && !std::is_constructible<A, A const&&>::value, "atomic objects must not be copyable");
  static_assert(std::is_nothrow_default_constructible<A>::value && std::is_nothrow_constructible<A, T>::value, "construction must be possible and not throw");
  static_assert(std::is_trivially_destructible<A>::value, "destruction must do nothing");
  static_assert(std::is_same<typename A::value_type, T>::value, "value_type");
  static_assert(std::is_same<decltype(std::declval<A&>().value()), T&>::value && std::is_same<decltype(std::declval<A const&>().value()), T const&>::value, "value()");
  static_assert(std::is_same<decltype(std::declval<A volatile&>().value()), T volatile&>::value && std::is_same<decltype(std::declval<A const volatile&>().value()), T const volatile&>::value, "value()");
  enum { ok = 1 };
};
template<class R, class C, class T> struct ref_layout {
  static_assert((R::required_alignment & (R::required_alignment - 1u)) == 0u && R::required_alignment >= alignof(T), "required_alignment");
  static_assert(!R::is_always_lock_free || ((sizeof(T) & (sizeof(T) - 1u)) == 0u && R::required_alignment >= sizeof(T)), "required_alignment does not suffice for native operations");
  static_assert(C::required_alignment == R::required_alignment && C::is_always_lock_free == R::is_always_lock_free, "references to T and to const T must agree");
  static_assert(std::is_nothrow_copy_constructible<R>::value && std::is_trivially_destructible<R>::value, "references must be copyable");
  static_assert(!std::is_copy_assignable<R>::value && !std::is_move_assignable<R>::value, "references must not be rebound or assigned from references");
  static_assert(!std::is_default_constructible<R>::value, "references must refer to an object");
  static_assert(std::is_nothrow_constructible<R, T&>::value && !std::is_convertible<T&, R>::value, "construction from a reference is explicit");
  static_assert(!std::is_constructible<R, T const&>::value && !std::is_constructible<R, T>::value && std::is_constructible<C, T const&>::value, "references to const and to temporaries");
  static_assert(std::is_same<typename R::value_type, T>::value && std::is_same<typename C::value_type, T const>::value, "value_type");
  static_assert(std::is_same<decltype(std::declval<R const&>().value()), T&>::value && std::is_same<decltype(std::declval<C const&>().value()), T const&>::value, "value()");
  enum { ok = 1 };
};
"""
LAYOUT_CFG = [("g++", ["-std=c++11"]), ("g++", ["-std=gnu++20", "-march=sandybridge"]), ("g++", ["-std=c++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"]),
              ("g++", ["-std=c++17", "-DBOOST_ATOMIC_NO_CMPXCHG16B", "-march=sandybridge"]),
              ("clang++-18", ["-std=c++11"]), ("clang++-18", ["-std=c++20", "-march=sandybridge"]), ("clang++-18", ["-std=c++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"])]


def storage_of(t):
    n = t.size
    return n if n > 16 or n in (1, 2, 4, 8, 16) else 4 if n == 3 else 8 if n < 8 else 16


def layout_witness(r):
    jobs, meta = [], []
    for comp, fl in LAYOUT_CFG:
        s, n = [LAYOUT], 0
        for k in ALL:
            t = cases.TYPES[k]
            if t.pads and comp != "g++":
                continue
            if t.decl and t.decl not in s:
                s.append(t.decl)
            s.append("namespace l_%s { typedef %s; static_assert(layout< boost::atomic< T >, T, %d >::ok, \"\");" % (k, cases.tdef(t.cpp, "T"), storage_of(t)))
            s.append("static_assert(ref_layout< boost::atomic_ref< T >, boost::atomic_ref< T const >, T >::ok, \"\");")
            n += 21
            if "-DBOOST_ATOMIC_FORCE_FALLBACK" not in fl:
                s.append("static_assert(layout< boost::ipc_atomic< T >, T, %d >::ok, \"\");" % storage_of(t))
                s.append("static_assert(ref_layout< boost::ipc_atomic_ref< T >, boost::ipc_atomic_ref< T const >, T >::ok, \"\");")
                n += 21
            s.append("}")
        for f in ("atomic_flag", "ipc_atomic_flag"):
            s.append("static_assert(!std::is_copy_constructible< boost::%s >::value && !std::is_copy_assignable< boost::%s >::value && sizeof(boost::%s) == 4 && alignof(boost::%s) == 4 && "
                     "!std::is_assignable< boost::%s volatile&, boost::%s const& >::value, \"flag layout\");" % ((f,) * 6))
        jobs.append((comp, "\n".join(s) + "\n", fl + ["-w"]))
        meta.append(("%s %s" % (comp, " ".join(fl)), n))
    for (title, n), (rc, se) in zip(meta, build.syntax_many(jobs)):
        r.ob(n)
        r.count("layout and traits witnesses compiled", n)
        if rc:
            err = [l for l in se.splitlines() if "error" in l][:3]
            r.finding("layout", title, "%s: %s" % (title, "; ".join(err)))


CTOR_PAD = {"constructed-padding", "referent-padding"}


def constructors(r, cfgs, pad, types=None):
    """judge constructors; pad selects the findings about padding (A18) or the others (A17)"""
    types = types or ALL
    jobs = [(c, [t], ctorcheck.KINDS) for c in cfgs for t in types if not (opcheck.t_padded(t) and c not in opcheck.CLEARS_PADDING)]
    n = 0
    for res in ctorcheck.run(jobs):
        if "builderror" in res:
            raise build.BuildError("constructors %s" % (res["job"][:2],), res["builderror"])
        n += res["cases"]
        r.count("constructors and accessors analysed", res["cases"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for title, ty, ok, rule, msg, loc in res["results"]:
            if (rule in CTOR_PAD) != pad:
                continue
            r.ob()
            if ok is False:
                r.finding(rule, loc_text(loc), "%s: %s" % (title, msg))
            elif ok is None:
                r.undecided.append((rule, loc_text(loc), "%s: %s" % (title, msg)))
    if not n:
        raise Broken("no constructor instantiated")


@check("A17")
def a17(r):
    r.rule("construction", "after each constructor the object's memory, as a term over the argument, is the value padded with zeros (T() for default construction); a reference stores the referent's address and "
           "leaves its value alone; value() returns the object's own address, in every qualification")
    r.rule("layout", "sizes, alignments, copyability and types as static assertions compiled by g++ and clang")
    r.assumptions += COMMON_ASSUME
    q = r.tier == "quick"
    constructors(r, ["def", "fb", "gcc", "gccb"] if q else ALLCFG, False)
    static_objects(r, ["def", "gcc"] if q else ALLCFG)
    layout_witness(r)
    r.sample("new (o) boost::atomic<VS3>(*a) : bytes 0..2 = a's, byte 3 = 0")


MANIFEST = {
    "A17": ("term-level analysis of constructors and accessors (LLVM IR) plus layout/trait static assertions compiled by two compilers", "all value types, object kinds and seven compiler modes"),
    "A23": ("typestate analysis of every atomic_flag operation (LLVM IR), waits as in A10/A11, constant-initialiser inspection", "all orders, both flag kinds, volatile and not, nine configurations"),
    "A25": ("front-end constant-initialisation analysis (-O0 LLVM IR: global_ctors, guards, initialiser bytes) plus constinit compile witnesses", "internal state after exit handlers relies on A13"),
}
