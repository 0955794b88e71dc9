"""Construction of atomic objects and references, and value(): what each constructor leaves in memory, as terms."""
import multiprocessing as mp
from . import build, cases, effects, llvm, opcheck, terms as T
from .engine import Engine, State, Incomplete
from .cases import TYPES

EXTRA = ["struct VSD8 { int a = 5, b = 7; };", "enum class VED : short { d0 = 0, d3 = 3 };", "struct VSD4 { unsigned char a = 1, b = 2, c = 3, d = 4; VSD4() = default; };"]
# types whose T() is not all zero bits: (spelling, size, T() as a number)
DFLT = [("VSD8", 8, 5 | 7 << 32), ("VSD4", 4, 0x04030201)]
KINDS = ("atomic", "ipc", "ref", "ipcref", "cref")


class CC:
    def __init__(self, **k):
        self.__dict__.update(k)


def usable(cfg, ty, kind):
    return opcheck.supported(cfg, ty, {"cref": "ref"}.get(kind, kind)) and (not opcheck.t_padded(ty) or cfg in opcheck.CLEARS_PADDING)


def gen(cfg, types, kinds=KINDS):
    fl, pre = build.CONFIGS[cfg]
    s = [pre, "#include <boost/atomic.hpp>", "#include <new>", "#include <cstddef>"] + EXTRA
    out = []

    def fn(ns, name, ret, args, body, **k):
        full = "k_%s_%s" % (ns, name)
        s.append('extern "C" __attribute__((noinline,used)) %s %s(%s) { %s }' % (ret, full, args, body))
        out.append(CC(fn=full, what=name, **k))
    for k in types:
        if TYPES[k].decl and TYPES[k].decl not in s:
            s.append(TYPES[k].decl)
    for k in types:
        t = TYPES[k]
        for kind in kinds:
            if not usable(cfg, k, kind):
                continue
            ns = "%s_%s" % (kind, k)
            base = {"atomic": "boost::atomic< T >", "ipc": "boost::ipc_atomic< T >", "ref": "boost::atomic_ref< T >", "ipcref": "boost::ipc_atomic_ref< T >", "cref": "boost::atomic_ref< T const >"}[kind]
            s.append("namespace ns_%s { typedef %s; typedef %s OBJ;" % (ns, cases.tdef(t.cpp, "T"), base))
            kw = {"ty": k, "kind": kind, "size": effects.storage_size(k, {"cref": "ref"}.get(kind, kind))}
            if kind in ("atomic", "ipc"):
                fn(ns, "value_ctor", "void", "OBJ* o, T const* a", "::new (static_cast< void* >(o)) OBJ(*a);", **kw)
                fn(ns, "brace_ctor", "void", "OBJ* o, T const* a", "::new (static_cast< void* >(o)) OBJ{ *a };", **kw)
                fn(ns, "default_ctor", "void", "OBJ* o, T const* a", "::new (static_cast< void* >(o)) OBJ;", **kw)
                fn(ns, "value_init", "void", "OBJ* o, T const* a", "::new (static_cast< void* >(o)) OBJ();", **kw)
                for q, nm in (("", "value"), ("const", "value_const"), ("volatile", "value_volatile"), ("const volatile", "value_cv")):
                    fn(ns, nm, "void const volatile*", "OBJ %s* o, T const* a" % q, "return &o->value();", **kw)
            else:
                cv = "const" if kind == "cref" else ""
                fn(ns, "ref_ctor", "void", "OBJ* o, T %s* a" % cv, "::new (static_cast< void* >(o)) OBJ(*a);", **kw)
                fn(ns, "ref_copy", "void", "OBJ* o, OBJ const* a", "::new (static_cast< void* >(o)) OBJ(*a);", **kw)
                mk = {"ref": "boost::make_atomic_ref", "ipcref": "boost::make_ipc_atomic_ref"}.get(kind)
                if mk:
                    fn(ns, "ref_make", "void", "OBJ* o, T* a", "::new (static_cast< void* >(o)) OBJ(%s(*a));" % mk, **kw)
                fn(ns, "ref_value", "void const volatile*", "OBJ const* o, T const* a", "return &o->value();", **kw)
            s.append("}")
    for cpp, n, v in DFLT:
        for kind, base in (("atomic", "boost::atomic"), ("ipc", "boost::ipc_atomic")):
            if cfg in ("fb", "gccfb") and kind == "ipc" or kind not in kinds:
                continue
            ns = "%s_%s" % (kind, cpp)
            s.append("namespace ns_%s { typedef %s< %s > OBJ;" % (ns, base, cpp))
            for nm, e in (("default_ctor", "OBJ"), ("value_init", "OBJ()")):
                fn(ns, nm, "void", "OBJ* o, void const* a", "::new (static_cast< void* >(o)) %s;" % e, ty=None, cpp=cpp, kind=kind, size=n, const=v)
            s.append("}")
    return "\n".join(s) + "\n", out


def title(cfg, c):
    base = {"atomic": "atomic", "ipc": "ipc_atomic", "ref": "atomic_ref", "ipcref": "ipc_atomic_ref", "cref": "const atomic_ref"}[c.kind]
    return "[%s] %s< %s >: %s" % (cfg, base, TYPES[c.ty].cpp if c.ty else c.cpp, c.what.replace("_", " "))


def analyse(c, fn):
    none = ("P", T.S(64, ("no object",)))
    dm = effects.OpDomain(none, c.size, T.S(8 * c.size, "OLD"), False)
    e = Engine(fn, dm)
    dm.e = e
    st = State()
    a1 = ("P", T.S(64, ("arg", 1)))
    if c.ty and c.what not in ("ref_copy", "ref_value"):
        t = TYPES[c.ty]
        effects.seg(st, a1, t, effects.value_sym(t, "V"), "V")
    e.run(st)
    return dm, e


def judge(c, dm, e, cfg):
    """-> [(ok, rule, message, loc)]"""
    out = []
    a0, a1 = ("P", T.S(64, ("arg", 0))), ("P", T.S(64, ("arg", 1)))
    t = TYPES[c.ty] if c.ty else None
    if not dm.finals:
        return [(False, "no-return", "no path returns", ())]
    for s, rv, i in dm.finals:
        def cmp(rule, what, got, want):
            r = effects.same(got, want, s)
            out.append((r, rule, "%s is %s, must be %s" % (what, T.show(got), T.show(want)), i.loc))
        if c.what in ("value_ctor", "brace_ctor", "default_ctor", "value_init"):
            got = e.mem_read(s.copy(), a0, 0, c.size)
            if c.what in ("value_ctor", "brace_ctor"):
                v = effects.value_sym(t, "V", True)
                want = effects.pad(v, 8 * c.size)
            elif t is None:
                want = T.C(8 * c.size, c.const)
            else:
                want = T.C(8 * c.size, 0)
            vb = t.vbits if t else 8 * c.size
            r = effects.same(T.trunc(got, vb) if got[1] > vb else got, T.trunc(want, vb) if want[1] > vb else want, s)
            if r is not True and t is not None and t.pads:
                r = effects.same(unpad(got, t), unpad(want, t), s)
            out.append((r, "constructed-value", "the object holds %s after construction, must hold %s" % (T.show(got), T.show(want)), i.loc))
            r = effects.same(got, want, s)
            out.append((r, "constructed-padding", "the representation after construction is %s, must be %s (padding and tail bits zero)" % (T.show(got), T.show(want)), i.loc))
        elif c.what.startswith("value"):
            cmp("value-address", "the address returned by value()", rv, T.S(64, ("arg", 0)))
        elif c.what in ("ref_ctor", "ref_make"):
            got = e.mem_read(s.copy(), a0, 0, 8)
            cmp("referent", "the stored address", got, T.S(64, ("arg", 1)))
            v = effects.value_sym(t, "V", bool(t.pads))
            got = e.mem_read(s.copy(), a1, 0, v[1] // 8)
            r = effects.same(got, v, s)
            if r is not True and t.pads and effects.same(unpad(got, t), unpad(v, t), s) is True:
                out.append((False, "referent-padding", "creating the reference leaves padding bits of the object as %s, must be zero" % T.show(got), i.loc))
            else:
                out.append((r, "referent-modified", "creating the reference changes the object to %s" % T.show(got), i.loc))
            if t.size * 8 > t.vbits:
                got = e.mem_read(s.copy(), a1, t.vbits // 8, t.size - t.vbits // 8)
                cmp("referent-padding", "tail padding of the referenced object after creating the reference", got, T.C(got[1], 0))
        elif c.what == "ref_copy":
            got = e.mem_read(s.copy(), a0, 0, 8)
            # arg1 is a reference object here: its first 8 bytes are whatever the entry state holds
            cmp("referent", "the stored address of the copy", got, e.mem_read(State(), a1, 0, 8))
        elif c.what == "ref_value":
            cmp("value-address", "the address returned by value()", rv, e.mem_read(State(), a0, 0, 8))
    return out


def unpad(x, t):
    m = (1 << x[1]) - 1
    for o, n in t.pads:
        m &= ~(((1 << (8 * n)) - 1) << (8 * o))
    return T.and_(x, T.C(x[1], m))


def one(job):
    cfg, types, kinds = job
    text, cs = gen(cfg, types, kinds)
    r = {"job": job, "cases": 0, "results": [], "incomplete": []}
    try:
        bc = build.compile_ir(text, build.CONFIGS[cfg][0], name="ctor_" + cfg)
    except build.BuildError as x:
        r["builderror"] = x.text[:4000]
        return r
    m = llvm.Module(bc)
    for c in cs:
        f = m.functions.get(c.fn)
        tt = title(cfg, c)
        if f is None or f.decl:
            r["incomplete"].append((tt, "wrapper vanished"))
            continue
        try:
            dm, e = analyse(c, f)
            js = judge(c, dm, e, cfg)
        except Incomplete as x:
            r["incomplete"].append((tt, str(x)))
            continue
        r["cases"] += 1
        for ok, rule, msg, loc in js:
            r["results"].append((tt, c.ty, ok, rule, msg, loc))
    return r


def run(jobs):
    build.source_hash()
    with mp.Pool(build.JOBS) as p:
        return p.map(one, jobs, chunksize=1)
