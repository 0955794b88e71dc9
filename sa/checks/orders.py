"""Memory order preconditions (A19): with the assertion handler enabled, which constant orders reach it."""
from . import check
from .. import build, llvm, cases, opcheck
from ..report import loc_text, Broken
from ..cases import ORDERS, LOAD_ORDERS, STORE_ORDERS, CAS_ORDERS, TYPES
from .ops import COMMON_ASSUME

TY = ["s32", "u64", "s8", "s128", "bool", "e32", "f32", "f80", "pi", "pv", "m3", "m8", "m24"]
HANDLER = ("boost::assertion_failed(", "boost::assertion_failed_msg(")
BAD_LOAD = [o for o in ORDERS if o not in LOAD_ORDERS]
BAD_STORE = [o for o in ORDERS if o not in STORE_ORDERS]
BAD_CAS = [(s, f) for s in ORDERS for f in ORDERS if (s, f) not in CAS_ORDERS]
EXTRA = """
#include <chrono>
extern std::chrono::steady_clock::time_point verif_tp; extern std::chrono::nanoseconds verif_d;
"""
MO = "boost::memory_order_"


def illegal(ty, kind):
    """(operation, orders text, statement)"""
    out = []
    if kind in cases.FLAGS:
        for o in BAD_LOAD:
            out.append(("test", o, "*(bool*)r = o->test(%s%s);" % (MO, o)))
            out += waits("*(bool*)a", o, kind)
        for o in BAD_STORE:
            out.append(("clear", o, "o->clear(%s%s);" % (MO, o)))
        return out
    for o in BAD_LOAD:
        out.append(("load", o, "*r = o->load(%s%s);" % (MO, o)))
        out += waits("*a", o, kind)
    for o in BAD_STORE:
        out.append(("store", o, "o->store(*a, %s%s);" % (MO, o)))
    for nm in ("compare_exchange_strong", "compare_exchange_weak"):
        for s, f in BAD_CAS:
            out.append((nm, s + "," + f, "*(bool*)r = o->%s(*e, *a, %s%s, %s%s);" % (nm, MO, s, MO, f)))
    return out


def waits(arg, o, kind):
    t = "*(bool*)r" if kind in cases.FLAGS else "*r"
    return [("wait", o, "%s = o->wait(%s, %s%s);" % (t, arg, MO, o)),
            ("wait_until", o, "o->wait_until(%s, verif_tp, %s%s);" % (arg, MO, o)),
            ("wait_for", o, "o->wait_for(%s, verif_d, %s%s);" % (arg, MO, o))]


def legal(ty, kind):
    out = []
    for c in cases.gen(ty, kind, "all"):
        if c.so is None:
            continue
        x = c.expr
        if c.op.startswith("bit_test") and c.const is None:
            x = x.replace("*(const unsigned int*)a", "(*(const unsigned int*)a & %du)" % (TYPES[ty].vbits - 1))
        out.append((c.op, c.so if c.fo is None else c.so + "," + c.fo, x))
    for o in LOAD_ORDERS:
        out += waits("*(bool*)a" if kind in cases.FLAGS else "*a", o, kind)
    return out


def unit(ty, kind, pre):
    t = TYPES[ty]
    s = [pre, "#include %s" % cases.KINDS[kind][1], "#include <cstddef>", "#include <boost/memory_order.hpp>", EXTRA, t.decl or ""]
    cpp = "bool" if kind in cases.FLAGS else t.cpp
    s.append("namespace ns { typedef %s; typedef %s OBJ; }" % (cases.tdef(cpp, "T"), cases.obj_type(kind, t.cpp)))
    tab = {}
    for good, lst in ((True, legal(ty, kind)), (False, illegal(ty, kind))):
        for n, (op, o, x) in enumerate(lst):
            fn = "%s_%d" % ("ok" if good else "bad", n)
            tab[fn] = (good, op, o)
            s.append("namespace ns { extern \"C\" __attribute__((noinline,used)) void %s(OBJ* o, T const* a, T* r, T* e) { %s } }" % (fn, x))
    return "\n".join(s) + "\n", tab


def is_handler(i):
    if i.op not in ("call", "invoke"):
        return False
    n = llvm.callee_name(i)
    return bool(n) and llvm.demangle(n).startswith(HANDLER)


def effect(i):
    """could change what another thread sees"""
    if i.op in ("atomicrmw", "cmpxchg"):
        return True
    if i.op == "store":
        return True
    if i.op in ("call", "invoke"):
        n = llvm.callee_name(i)
        return not (n and (n.startswith("llvm.") and not n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove"))))
    return False


def local(i):
    """a store to the function's own stack"""
    if i.op != "store":
        return False
    p = i.ops[1]
    while p.kind == "inst" and p.op in ("getelementptr", "bitcast"):
        p = p.ops[0]
    return p.kind == "inst" and p.op == "alloca"


def unasserted(fn):
    """a path from the entry that returns, or changes something, without having called the handler: None or the instruction it reaches"""
    seen = set()
    work = [fn.blocks[0]]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        stop = False
        for i in b.insts:
            if is_handler(i):
                stop = True
                break
            if effect(i) and not local(i) or i.op == "ret":
                return i
        if not stop:
            work += b.succs
    return None


def pointer_only(fn, b):
    """block b is entered only under conditions on the values of pointer arguments (an alignment assertion)"""
    def leaves(v, seen):
        if v.kind in ("int", "null", "const", "undef", "poison"):
            return True
        if v.kind == "arg":
            return v.ty.kind == "ptr"
        if v.kind == "inst" and v not in seen and v.op in ("ptrtoint", "and", "icmp", "or", "getelementptr", "xor", "trunc", "zext"):
            seen.add(v)
            return all(leaves(o, seen) for o in v.ops)
        return False
    ps = [p for p in fn.blocks if b in p.succs]
    if not ps:
        return False
    for p in ps:
        t = p.insts[-1]
        if t.op != "br" or len(p.succs) != 2:
            if t.op == "br" and pointer_only(fn, p):
                continue
            return False
        if not leaves(t.ops[0], set()):
            return False
    return True


@check("A19")
def a19(r):
    r.rule("illegal-order-accepted", "for every operation and every constant order (pair) outside the documented preconditions, every path from the entry of the compiled operation calls the assertion handler "
           "before it returns or changes anything")
    r.rule("legal-order-rejected", "for every operation and every documented order (pair), the compiled operation contains no call of the assertion handler (conditions on run-time pointers aside, which are alignment "
           "preconditions; bit numbers are constrained to the documented range)")
    r.assumptions += COMMON_ASSUME
    r.assumptions.append("assertions go through BOOST_ASSERT; the handler is boost::assertion_failed (BOOST_ENABLE_ASSERT_HANDLER)")
    q = r.tier == "quick"
    cfgs = ["def", "fb", "gcc"] if q else ["def", "snb", "fb", "gcc", "gccb", "gccfb", "arch", "gccarch"]
    jl = []
    for c in cfgs:
        for k in ("atomic", "ref", "ipc", "ipcref"):
            for t in TY if q else [x for x in TYPES if TYPES[x].cat != "flag"]:
                if opcheck.t_padded(t) and c not in opcheck.CLEARS_PADDING or not opcheck.supported(c, t, k):
                    continue
                jl.append((c, t, k))
        for k in ("flag", "ipcflag"):
            if k == "flag" or c not in ("fb", "gccfb"):
                jl.append((c, "flag", k))
    units = [unit(t, k, build.CONFIGS[c][1]) for c, t, k in jl]
    bcs = build.compile_many([{"text": u[0], "flags": build.CONFIGS[j[0]][0] + ["-DBOOST_ENABLE_ASSERT_HANDLER"], "name": "ord_%s_%s_%s" % j} for j, u in zip(jl, units)])
    for j, (text, tab), bc in zip(jl, units, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        cfg, ty, kind = j
        m = llvm.Module(bc)
        for fn, (good, op, o) in tab.items():
            f = m.functions.get(fn)
            if f is None or f.decl:
                raise Broken("no code for %s %s %s" % (op, o, j))
            title = "[%s] %s< %s >::%s(%s)" % (cfg, kind, TYPES[ty].cpp, op, o)
            r.ob(1)
            if good:
                r.count("legal order arguments")
                for b in f.blocks:
                    for i in b.insts:
                        if is_handler(i) and not pointer_only(f, b):
                            r.finding("legal-order-rejected", loc_text(i.loc), "%s: a documented order reaches the assertion handler" % title)
            else:
                r.count("illegal order arguments")
                i = unasserted(f)
                if i is not None:
                    r.finding("illegal-order-accepted", loc_text(i.loc), "%s: the operation proceeds without any assertion" % title)
    r.sample("atomic< int >::compare_exchange_weak with all 36 order pairs; load, store, wait, wait_for, wait_until, test, clear with all six orders")
    r.need(r.counts.get("illegal order arguments", 0) > 500, "illegal order instances")


MANIFEST = {"A19": ("reachability of the assertion handler in the compiled form of every operation, for every order argument", "boost/assert.hpp")}
