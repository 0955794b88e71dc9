"""Enumerates the public operations of the library as small wrapper functions
(one call each) together with what each must do to the object (its sequential
specification).  The wrappers are compiled against /repo and analysed, never
run."""
from . import terms as T

ORDERS = ["relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"]
BITS = {"relaxed": 0, "consume": 1, "acquire": 1, "release": 2, "acq_rel": 3, "seq_cst": 7}
LOAD_ORDERS = ["relaxed", "consume", "acquire", "seq_cst"]
STORE_ORDERS = ["relaxed", "release", "seq_cst"]
# legal (success, failure) pairs: the failure order does not release and is not stronger than the success order
_VAL = {"relaxed": 0, "consume": 1, "acquire": 2, "release": 4, "acq_rel": 6, "seq_cst": 14}


def _legal(s, f):
    return f not in ("release", "acq_rel") and _VAL[f] <= _VAL[s]


CAS_ORDERS = [(s, f) for s in ORDERS for f in LOAD_ORDERS if _legal(s, f)]
DEDUCED = {"relaxed": "relaxed", "consume": "consume", "acquire": "acquire", "release": "relaxed", "acq_rel": "acquire", "seq_cst": "seq_cst"}


class Ty:
    def __init__(self, key, cpp, size, cat, signed=False, vbits=None, decl="", elem=None, pads=()):
        self.key, self.cpp, self.size, self.cat, self.signed, self.decl, self.elem = key, cpp, size, cat, signed, decl, elem
        self.vbits = vbits or 8 * size
        self.pads = pads

    def __repr__(self):
        return self.key


TYPES = {}


def _t(*a, **k):
    t = Ty(*a, **k)
    TYPES[t.key] = t


for _k, _c, _n in (("s8", "signed char", 1), ("s16", "short", 2), ("s32", "int", 4), ("s64", "long", 8), ("s128", "__int128", 16)):
    _t(_k, _c, _n, "int", True)
for _k, _c, _n in (("u8", "unsigned char", 1), ("u16", "unsigned short", 2), ("u32", "unsigned int", 4), ("u64", "unsigned long", 8), ("u128", "unsigned __int128", 16)):
    _t(_k, _c, _n, "int", False)
_t("ch", "char", 1, "int", True)
_t("c16", "char16_t", 2, "int", False)
_t("c32", "char32_t", 4, "int", False)
_t("wch", "wchar_t", 4, "int", True)
_t("sll", "long long", 8, "int", True)
_t("ull", "unsigned long long", 8, "int", False)
_t("bool", "bool", 1, "bool")
_t("e8", "VE8", 1, "enum", False, decl="enum class VE8 : unsigned char { a, b };")
_t("e16", "VE16", 2, "enum", True, decl="enum class VE16 : short { a, b };")
_t("e32", "VE32", 4, "enum", True, decl="enum VE32 : int { ve32_a, ve32_b };")
_t("e64", "VE64", 8, "enum", False, decl="enum class VE64 : unsigned long { a, b };")
_t("f32", "float", 4, "fp")
_t("f64", "double", 8, "fp")
_t("f80", "long double", 16, "fp", vbits=80)
_t("pi", "int*", 8, "ptr", elem=4)
_t("pc", "char*", 8, "ptr", elem=1)
_t("p12", "VS12*", 8, "ptr", elem=12, decl="struct VS12 { int a, b, c; };")
_t("p40", "VS40*", 8, "ptr", elem=40, decl="struct VS40 { long a[5]; };")
_t("pv", "void*", 8, "vptr")
_t("pcv", "const void*", 8, "vptr")
_t("pf", "void (*)(int)", 8, "vptr")
_t("m3", "VS3", 3, "struct", decl="struct VS3 { unsigned char a, b, c; };")
_t("m4", "VS4", 4, "struct", decl="struct VS4 { short a, b; };")
_t("m8", "VS8", 8, "struct", decl="struct VS8 { int a, b; };")
_t("m12", "VS12", 12, "struct", decl="struct VS12 { int a, b, c; };")
_t("m16", "VS16", 16, "struct", decl="struct VS16 { long a, b; };")
_t("m24", "VS24", 24, "struct", decl="struct VS24 { long a, b, c; };")
_t("a32", "VSA32", 32, "struct", decl="struct alignas(32) VSA32 { long a, b, c, d; };")
_t("m5", "VS5", 5, "struct", decl="struct VS5 { unsigned char a[5]; };")
# every storage size class, and weakly aligned types of native sizes
for _n in (1, 2, 6, 7, 8, 9, 13, 15, 16, 17, 32, 33):
    _t("b%d" % _n, "VC%d" % _n, _n, "struct", decl="struct VC%d { unsigned char a[%d]; };" % (_n, _n))
# structures with internal / trailing padding: only usable where the compiler can clear padding (see CLEARS_PADDING)
_t("q8", "VSQ8", 8, "struct", decl="struct VSQ8 { unsigned char a; int b; };", pads=((1, 3),))
_t("q4", "VSQ4", 4, "struct", decl="struct VSQ4 { short a; unsigned char b; };", pads=((3, 1),))
_t("q16", "VSQ16", 16, "struct", decl="struct VSQ16 { long a; unsigned char b; };", pads=((9, 7),))
_t("q12", "VSQ12", 12, "struct", decl="struct VSQ12 { int a; unsigned char b; int c; };", pads=((5, 3),))
_t("q24", "VSQ24", 24, "struct", decl="struct VSQ24 { unsigned char a; long b; long c; };", pads=((1, 7),))
# the flag: 4 bytes of storage holding 0 or 1, observed through bool
_t("flag", "unsigned int", 4, "flag", vbits=8)
PADDED = ["q8", "q4", "q16", "q12", "q24"]

KINDS = {"atomic": ("boost::atomic< %s >", "<boost/atomic/atomic.hpp>"),
         "ref": ("boost::atomic_ref< %s > const", "<boost/atomic/atomic_ref.hpp>"),
         "ipc": ("boost::ipc_atomic< %s >", "<boost/atomic/ipc_atomic.hpp>"),
         "ipcref": ("boost::ipc_atomic_ref< %s > const", "<boost/atomic/ipc_atomic_ref.hpp>"),
         "flag": ("boost::atomic_flag", "<boost/atomic/atomic_flag.hpp>"),
         "ipcflag": ("boost::ipc_atomic_flag", "<boost/atomic/ipc_atomic_flag.hpp>")}
FLAGS = ("flag", "ipcflag")


def obj_type(kind, cpp):
    return KINDS[kind][0] % cpp if "%s" in KINDS[kind][0] else KINDS[kind][0]


class Case:
    __slots__ = ("fn", "ty", "kind", "op", "so", "fo", "expr", "mode", "new", "ret", "argw", "rbits", "const", "argterm", "strong", "argc")

    def title(self):
        o = "" if self.so is None else ("(%s)" % self.so if self.fo is None else "(%s,%s)" % (self.so, self.fo))
        if self.kind in FLAGS:
            return "%s::%s%s" % (KINDS[self.kind][0][7:], self.op, o)
        return "%s< %s >::%s%s%s" % ({"atomic": "atomic", "ref": "atomic_ref", "ipc": "ipc_atomic", "ipcref": "ipc_atomic_ref"}[self.kind], TYPES[self.ty].cpp, self.op, o, "" if self.const is None else " with argument %d" % self.const)


def _w(x):
    return x[1]


def one(w):
    return T.C(w, 1)


# integral operations: name -> (needs arg, new(O,V), ret)   ret in {'old','new','nz','void','bit'}
INT_RMW = {
    "exchange": (1, lambda o, v: v, "old"),
    "fetch_add": (1, T.add, "old"), "fetch_sub": (1, T.sub, "old"),
    "fetch_and": (1, T.and_, "old"), "fetch_or": (1, T.or_, "old"), "fetch_xor": (1, T.xor, "old"),
    "fetch_negate": (0, lambda o, v: T.neg(o), "old"), "fetch_complement": (0, lambda o, v: T.not_(o), "old"),
    "add": (1, T.add, "new"), "sub": (1, T.sub, "new"), "negate": (0, lambda o, v: T.neg(o), "new"),
    "bitwise_and": (1, T.and_, "new"), "bitwise_or": (1, T.or_, "new"), "bitwise_xor": (1, T.xor, "new"),
    "bitwise_complement": (0, lambda o, v: T.not_(o), "new"),
    "opaque_add": (1, T.add, "void"), "opaque_sub": (1, T.sub, "void"), "opaque_negate": (0, lambda o, v: T.neg(o), "void"),
    "opaque_and": (1, T.and_, "void"), "opaque_or": (1, T.or_, "void"), "opaque_xor": (1, T.xor, "void"),
    "opaque_complement": (0, lambda o, v: T.not_(o), "void"),
    "add_and_test": (1, T.add, "nz"), "sub_and_test": (1, T.sub, "nz"), "negate_and_test": (0, lambda o, v: T.neg(o), "nz"),
    "and_and_test": (1, T.and_, "nz"), "or_and_test": (1, T.or_, "nz"), "xor_and_test": (1, T.xor, "nz"),
    "complement_and_test": (0, lambda o, v: T.not_(o), "nz"),
}
BIT_RMW = {
    "bit_test_and_set": lambda o, m: T.or_(o, m),
    "bit_test_and_reset": lambda o, m: T.and_(o, T.not_(m)),
    "bit_test_and_complement": lambda o, m: T.xor(o, m),
}
ENUM_OPS = ["exchange", "fetch_and", "fetch_or", "fetch_xor", "fetch_complement", "bitwise_and", "bitwise_or", "bitwise_xor",
            "bitwise_complement", "opaque_and", "opaque_or", "opaque_xor", "opaque_complement", "and_and_test", "or_and_test",
            "xor_and_test", "complement_and_test"]
FP_RMW = {
    "exchange": (1, lambda o, v: v, "old"),
    "fetch_add": (1, lambda o, v: T.fop("fadd", o[1], o, v), "old"), "fetch_sub": (1, lambda o, v: ("fsub", o[1], o, v), "old"),
    "fetch_negate": (0, lambda o, v: T.fneg(o), "old"),
    "add": (1, lambda o, v: T.fop("fadd", o[1], o, v), "new"), "sub": (1, lambda o, v: ("fsub", o[1], o, v), "new"),
    "negate": (0, lambda o, v: T.fneg(o), "new"),
    "opaque_add": (1, lambda o, v: T.fop("fadd", o[1], o, v), "void"), "opaque_sub": (1, lambda o, v: ("fsub", o[1], o, v), "void"),
    "opaque_negate": (0, lambda o, v: T.fneg(o), "void"),
}
PTR_RMW = {
    "exchange": (1, None, "old"),
    "fetch_add": (1, 1, "old"), "fetch_sub": (1, -1, "old"), "add": (1, 1, "new"), "sub": (1, -1, "new"),
    "opaque_add": (1, 1, "void"), "opaque_sub": (1, -1, "void"), "add_and_test": (1, 1, "nz"), "sub_and_test": (1, -1, "nz"),
}
INT_OPERATORS = {  # expression, new, ret
    "operator++()": ("++*o", lambda o, v: T.add(o, one(_w(o))), "new", 0),
    "operator++(int)": ("(*o)++", lambda o, v: T.add(o, one(_w(o))), "old", 0),
    "operator--()": ("--*o", lambda o, v: T.sub(o, one(_w(o))), "new", 0),
    "operator--(int)": ("(*o)--", lambda o, v: T.sub(o, one(_w(o))), "old", 0),
    "operator+=": ("*o += *a", T.add, "new", 1),
    "operator-=": ("*o -= *a", T.sub, "new", 1),
    "operator&=": ("*o &= *a", T.and_, "new", 1),
    "operator|=": ("*o |= *a", T.or_, "new", 1),
    "operator^=": ("*o ^= *a", T.xor, "new", 1),
}


def pick(orders, mode, n):
    """which of the legal orders to instantiate"""
    if mode == "all":
        return list(orders)
    if mode == "one":
        return [orders[n % len(orders)]]
    if mode == "sc":
        return [orders[-1]]
    raise ValueError(mode)


def gen(ty, kind, mode="one", ops=None, seq=0):
    """list of Case for one (type, object kind)"""
    t = TYPES[ty]
    out = []
    W = t.vbits
    cnt = [seq]
    isref = kind in ("ref", "ipcref")

    def mk(op, expr, smode, new=None, ret="void", so=None, fo=None, const=None, argw=None, argterm=None, rbits=None, strong=False, argc=None):
        if ops is not None and op not in ops:
            return
        c = Case()
        c.fn = "w_%s_%s_%d" % (kind, ty, len(out))
        c.ty, c.kind, c.op, c.so, c.fo, c.expr, c.mode, c.new, c.ret = ty, kind, op, so, fo, expr, smode, new, ret
        c.const, c.argw, c.argterm, c.rbits, c.strong, c.argc = const, argw, argterm, rbits, strong, argc
        out.append(c)

    def O(o):
        return "boost::memory_order_" + o

    def os(lst):
        cnt[0] += 1
        return pick(lst, mode, cnt[0])
    if kind in FLAGS:
        one_ = T.C(8, 1)
        for vol, obj in (("", "o"), (" volatile", "static_cast< OBJ volatile* >(o)")):
            for o in os(LOAD_ORDERS):
                mk("test" + vol, "*(bool*)r = %s->test(%s);" % (obj, O(o)), "load", ret="old", so=o)
            mk("test" + vol, "*(bool*)r = %s->test();" % obj, "load", ret="old", so="seq_cst")
            for o in os(STORE_ORDERS):
                mk("clear" + vol, "%s->clear(%s);" % (obj, O(o)), "store", new=lambda o_, v: T.C(8, 0), so=o)
            mk("clear" + vol, "%s->clear();" % obj, "store", new=lambda o_, v: T.C(8, 0), so="seq_cst")
            for o in os(ORDERS):
                mk("test_and_set" + vol, "*(bool*)r = %s->test_and_set(%s);" % (obj, O(o)), "rmw", new=lambda o_, v: one_, ret="old", so=o, argc=0)
            mk("test_and_set" + vol, "*(bool*)r = %s->test_and_set();" % obj, "rmw", new=lambda o_, v: one_, ret="old", so="seq_cst", argc=0)
        return out
    # load / store / conversions
    for o in os(LOAD_ORDERS):
        mk("load", "*r = o->load(%s);" % O(o), "load", ret="old", so=o)
    mk("load", "*r = o->load();", "load", ret="old", so="seq_cst")
    mk("operator T", "*r = static_cast< T >(*o);", "load", ret="old", so="seq_cst")
    for o in os(STORE_ORDERS):
        mk("store", "o->store(*a, %s);" % O(o), "store", new=lambda o_, v: v, so=o)
    mk("store", "o->store(*a);", "store", new=lambda o_, v: v, so="seq_cst")
    mk("operator=", "*r = (*o = *a);", "store", new=lambda o_, v: v, ret="arg", so="seq_cst")
    if not isref:
        mk("operator= volatile", "*r = (*static_cast< OBJ volatile* >(o) = *a);", "store", new=lambda o_, v: v, ret="arg", so="seq_cst")
        mk("load volatile", "*r = static_cast< OBJ const volatile* >(o)->load();", "load", ret="old", so="seq_cst")
    # compare exchange
    for nm in ("compare_exchange_strong", "compare_exchange_weak"):
        strong = nm.endswith("strong")
        for (s, f) in os(CAS_ORDERS):
            mk(nm, "*(bool*)r = o->%s(*e, *a, %s, %s);" % (nm, O(s), O(f)), "cas", so=s, fo=f, strong=strong, rbits=8)
        for s in os(ORDERS):
            mk(nm, "*(bool*)r = o->%s(*e, *a, %s);" % (nm, O(s)), "cas", so=s, fo=DEDUCED[s], strong=strong, rbits=8)
        mk(nm, "*(bool*)r = o->%s(*e, *a);" % nm, "cas", so="seq_cst", fo="seq_cst", strong=strong, rbits=8)

    def rmw(op, needs, new, ret, const=None, argw=None, argterm=None, bitop=False, argty=None):
        lhs = {"old": "*r = ", "new": "*r = ", "nz": "*(bool*)r = ", "bit": "*(bool*)r = ", "void": ""}[ret]
        rb = 8 if ret in ("nz", "bit") else None
        arg = []
        if needs:
            arg = ["(%s)%d" % (argty or "T", const)] if const is not None else ["*(const %s*)a" % argty if argty else "*a"]
        for o in os(ORDERS):
            mk(op, "%so->%s(%s);" % (lhs, op, ", ".join(arg + [O(o)])), "rmw", new=new, ret=ret, so=o, const=const, argw=argw, argterm=argterm, rbits=rb, argc=needs)
        if const is None:
            mk(op, "%so->%s(%s);" % (lhs, op, ", ".join(arg)), "rmw", new=new, ret=ret, so="seq_cst", const=const, argw=argw, argterm=argterm, rbits=rb, argc=needs)
    def bits():
        lg = {8: 3, 16: 4, 32: 5, 64: 6, 128: 7}[W]
        for op, new in BIT_RMW.items():
            nt = T.zext(T.S(lg, "V"), 32)
            rmw(op, 1, (lambda new: lambda o, n: new(o, T.shl(T.C(W, 1), n)))(new), "bit", argty="unsigned int", argterm=nt, argw=32)
            for k in (0, W - 1, W // 2 - 1):
                rmw(op, 1, (lambda new: lambda o, n: new(o, T.shl(T.C(W, 1), n)))(new), "bit", argty="unsigned int", const=k, argw=32)

    def operators(table):
        for op, (expr, new, ret, needs) in table.items():
            mk(op, "*r = (%s);" % expr, "rmw", new=new, ret=ret, so="seq_cst", argc=needs)
            if not isref:
                mk(op + " volatile", "*r = (%s);" % expr.replace("*o", "*static_cast< OBJ volatile* >(o)"), "rmw", new=new, ret=ret, so="seq_cst", argc=needs)

    if t.cat == "int":
        for op, (needs, new, ret) in INT_RMW.items():
            rmw(op, needs, new, ret)
            if needs and op not in ("exchange",):
                rmw(op, needs, new, ret, const=1)
                if "add" in op or "sub" in op:
                    rmw(op, needs, new, ret, const=0)
                    rmw(op, needs, new, ret, const=-1)
        bits()
        operators(INT_OPERATORS)
    elif t.cat == "enum":
        for op in ENUM_OPS:
            needs, new, ret = INT_RMW[op]
            rmw(op, needs, new, ret)
        bits()
        operators({k: v for k, v in INT_OPERATORS.items() if k in ("operator&=", "operator|=", "operator^=")})
    elif t.cat == "fp":
        for op, (needs, new, ret) in FP_RMW.items():
            rmw(op, needs, new, ret)
        for op, (expr, new, ret) in (("operator+=", ("*o += *a", FP_RMW["add"][1], "new")), ("operator-=", ("*o -= *a", FP_RMW["sub"][1], "new"))):
            mk(op, "*r = (%s);" % expr, "rmw", new=new, ret=ret, so="seq_cst", argc=1)
    elif t.cat == "ptr":
        for op, (needs, k, ret) in PTR_RMW.items():
            if k is None:
                rmw(op, needs, lambda o, v: v, ret)
                continue
            new = (lambda k: lambda o, v: T.add(o, T.scale(v, k * t.elem)))(k)
            rmw(op, needs, new, ret, argty="std::ptrdiff_t", argw=64)
            rmw(op, needs, new, ret, argty="std::ptrdiff_t", argw=64, const=1)
        for op, expr, k, ret, needs in (("operator++()", "++*o", 1, "new", 0), ("operator++(int)", "(*o)++", 1, "old", 0),
                                        ("operator--()", "--*o", -1, "new", 0), ("operator--(int)", "(*o)--", -1, "old", 0)):
            mk(op, "*r = (%s);" % expr, "rmw", new=(lambda k: lambda o, v: T.add(o, T.C(64, k * t.elem)))(k), ret=ret, so="seq_cst", argc=0)
        for op, expr, k in (("operator+=", "*o += *(const std::ptrdiff_t*)a", 1), ("operator-=", "*o -= *(const std::ptrdiff_t*)a", -1)):
            mk(op, "*r = (%s);" % expr, "rmw", new=(lambda k: lambda o, v: T.add(o, T.scale(v, k * t.elem)))(k), ret="new", so="seq_cst", argc=1, argw=64)
    else:
        rmw("exchange", 1, lambda o, v: v, "old")
    return out


def unit(cases, prelude="", extra=""):
    """C++ text holding the wrappers of all given cases"""
    hdr = sorted({KINDS[c.kind][1] for c in cases})
    decls = []
    for c in cases:
        d = TYPES[c.ty].decl
        if d and d not in decls:
            decls.append(d)
    s = [prelude]
    s += ["#include %s" % h for h in hdr] + ["#include <cstddef>", "#include <boost/memory_order.hpp>"]
    s += decls
    s.append(extra)
    seen = set()
    for c in cases:
        k = (c.kind, c.ty)
        ns = "ns_%s_%s" % k
        if k not in seen:
            seen.add(k)
            t = TYPES[c.ty].cpp
            s.append("namespace %s { typedef %s; typedef %s OBJ; }" % (ns, tdef(t, "T"), obj_type(c.kind, t)))
        s.append("namespace %s { extern \"C\" __attribute__((noinline,used)) void %s(OBJ* o, T const* a, T* r, T* e) { %s } }" % (ns, c.fn, c.expr))
    return "\n".join(s) + "\n"


def tdef(cpp, name):
    if "(*)" in cpp:
        return cpp.replace("(*)", "(*%s)" % name)
    return "%s %s" % (cpp, name)
