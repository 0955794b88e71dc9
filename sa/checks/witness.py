"""Compile-time witnesses: interface and types (A20), exception specifications (A21), inter-process use (A15)."""
import re
from . import check
from .. import build, cases, llvm, opcheck, waitcheck as W
from ..report import Broken, loc_text
from . import ops, wait
from .ops import ALL, ALLCFG, NATIVE, COMMON_ASSUME

GXX, CLANG = build.GXX, build.CLANG
# (compiler, flags, prelude) of the language levels and capability modes the interface is compiled in
LEVELS = [(c, ["-std=" + s] + x, "") for c, s, x in (
    (GXX, "c++11", []), (GXX, "c++14", []), (GXX, "c++17", []), (GXX, "c++20", []), (GXX, "c++23", []),
    (GXX, "gnu++11", []), (GXX, "gnu++20", ["-march=sandybridge"]), (GXX, "gnu++17", ["-DBOOST_ATOMIC_FORCE_FALLBACK"]),
    (CLANG, "c++11", []), (CLANG, "c++14", []), (CLANG, "c++17", ["-march=sandybridge"]), (CLANG, "c++20", []), (CLANG, "c++2b", []),
    (CLANG, "gnu++17", ["-march=sandybridge"]), (CLANG, "gnu++17", ["-DBOOST_ATOMIC_FORCE_FALLBACK"]))]
QUICK = [LEVELS[i] for i in (0, 2, 6, 7, 9, 10, 12)]


def title(comp, fl):
    return "%s %s" % (comp.split("/")[-1], " ".join(fl))


def judge(r, rule, jobs, meta, what):
    """each job consists of static_asserts whose message starts with 'W|': failures of those are findings, any other error
    means that the witness itself no longer compiles"""
    for (name, n), (rc, se) in zip(meta, build.syntax_many(jobs)):
        r.ob(n)
        r.count(what, n)
        if not rc:
            continue
        bad = re.findall(r"W\|([^\"\n|]*)", "\n".join(l for l in se.splitlines() if "error" in l))
        for b in list(dict.fromkeys(bad))[:25]:
            r.finding(rule, name, "%s: %s" % (name, b))
        other = [l for l in se.splitlines() if " error" in l and "W|" not in l]
        if other:
            r.finding(rule, other[0].split(": ")[0].strip()[-80:], "%s: the interface does not compile: %s" % (name, "; ".join(x.split("error: ")[-1] for x in other[:3])))


# --- A20: which operations exist -------------------------------------------------------------------------------------------------

MO = "boost::memory_order_seq_cst"
O, V, D = "std::declval<A&>()", "std::declval<T>()", "std::declval<D>()"
TP = "std::declval<std::chrono::steady_clock::time_point>()"
DU = "std::declval<std::chrono::milliseconds>()"
E = "std::declval<T&>()"
# name -> (expression, result type, read-only)
COMMON = {
    "load": ("%s.load(%s)" % (O, MO), "T", 1), "load default": ("%s.load()" % O, "T", 1),
    "store": ("%s.store(%s, %s)" % (O, V, MO), "void", 0), "store default": ("%s.store(%s)" % (O, V), "void", 0),
    "exchange": ("%s.exchange(%s, %s)" % (O, V, MO), "T", 0), "exchange default": ("%s.exchange(%s)" % (O, V), "T", 0),
    "wait": ("%s.wait(%s, %s)" % (O, V, MO), "T", 1), "wait default": ("%s.wait(%s)" % (O, V), "T", 1),
    "wait_until": ("%s.wait_until(%s, %s, %s)" % (O, V, TP, MO), "boost::atomics::wait_result< T >", 1),
    "wait_until default": ("%s.wait_until(%s, %s)" % (O, V, TP), "boost::atomics::wait_result< T >", 1),
    "wait_for": ("%s.wait_for(%s, %s, %s)" % (O, V, DU, MO), "boost::atomics::wait_result< T >", 1),
    "wait_for default": ("%s.wait_for(%s, %s)" % (O, V, DU), "boost::atomics::wait_result< T >", 1),
    "notify_one": ("%s.notify_one()" % O, "void", 2), "notify_all": ("%s.notify_all()" % O, "void", 2),
    "is_lock_free": ("%s.is_lock_free()" % O, "bool", 1), "has_native_wait_notify": ("%s.has_native_wait_notify()" % O, "bool", 1),
    "assignment": ("%s = %s" % (O, V), "T", 0),
}
for s in ("strong", "weak"):
    COMMON["compare_exchange_" + s] = ("%s.compare_exchange_%s(%s, %s, %s, %s)" % (O, s, E, V, MO, MO), "bool", 0)
    COMMON["compare_exchange_%s one order" % s] = ("%s.compare_exchange_%s(%s, %s, %s)" % (O, s, E, V, MO), "bool", 0)
    COMMON["compare_exchange_%s default" % s] = ("%s.compare_exchange_%s(%s, %s)" % (O, s, E, V), "bool", 0)


def _grp(names, arg, ret, out):
    for n in names:
        a = [arg] if arg else []
        out[n] = ("%s.%s(%s)" % (O, n, ", ".join(a + [MO])), ret, 0)
        out[n + " default"] = ("%s.%s(%s)" % (O, n, ", ".join(a)), ret, 0)


ARITH, ARITH_TEST, NEGATE, NEGATE_TEST, BITS, BIT_TEST, BIT_ASSIGN, INCDEC = {}, {}, {}, {}, {}, {}, {}, {}
_grp(["fetch_add", "fetch_sub", "add", "sub"], D, "T", ARITH)
_grp(["opaque_add", "opaque_sub"], D, "void", ARITH)
ARITH["operator+="] = ("%s += %s" % (O, D), "T", 0)
ARITH["operator-="] = ("%s -= %s" % (O, D), "T", 0)
_grp(["add_and_test", "sub_and_test"], D, "bool", ARITH_TEST)
_grp(["fetch_negate", "negate"], None, "T", NEGATE)
_grp(["opaque_negate"], None, "void", NEGATE)
_grp(["negate_and_test"], None, "bool", NEGATE_TEST)
_grp(["fetch_and", "fetch_or", "fetch_xor", "bitwise_and", "bitwise_or", "bitwise_xor"], V, "T", BITS)
_grp(["fetch_complement", "bitwise_complement"], None, "T", BITS)
_grp(["opaque_and", "opaque_or", "opaque_xor"], V, "void", BITS)
_grp(["opaque_complement"], None, "void", BITS)
_grp(["and_and_test", "or_and_test", "xor_and_test"], V, "bool", BITS)
_grp(["complement_and_test"], None, "bool", BITS)
_grp(["bit_test_and_set", "bit_test_and_reset", "bit_test_and_complement"], "3u", "bool", BIT_TEST)
for o in "&|^":
    BIT_ASSIGN["operator%s=" % o] = ("%s %s= %s" % (O, o, V), "T", 0)
for o in ("++", "--"):
    INCDEC["prefix operator" + o] = ("%s%s" % (o, O), "T", 0)
    INCDEC["postfix operator" + o] = ("%s%s" % (O, o), "T", 0)
ALLOPS = {}
for g in (COMMON, ARITH, ARITH_TEST, NEGATE, NEGATE_TEST, BITS, BIT_TEST, BIT_ASSIGN, INCDEC):
    ALLOPS.update(g)
HAS = {
    "int": [COMMON, ARITH, ARITH_TEST, NEGATE, NEGATE_TEST, BITS, BIT_TEST, BIT_ASSIGN, INCDEC],
    "bool": [COMMON],
    "enum": [COMMON, BITS, BIT_TEST],
    "fp": [COMMON, ARITH, NEGATE],
    "ptr": [COMMON, ARITH, ARITH_TEST, INCDEC],
    "other": [COMMON],
}
# operations which the documentation does not mention for a category and whose presence is not judged
FREE = {"enum": BIT_ASSIGN}
TYPE_LIST = [
    ("char", "int"), ("signed char", "int"), ("unsigned char", "int"), ("short", "int"), ("unsigned short", "int"), ("int", "int"), ("unsigned", "int"),
    ("long", "int"), ("unsigned long", "int"), ("long long", "int"), ("unsigned long long", "int"), ("wchar_t", "int"), ("char16_t", "int"), ("char32_t", "int"),
    ("bool", "bool"), ("XE4", "enum"), ("XE5", "enum"), ("XE6", "enum"), ("XE1", "enum"), ("XE2", "enum"), ("XE3", "enum"), ("float", "fp"), ("double", "fp"), ("long double", "fp"),
    ("int*", "ptr"), ("const int*", "ptr"), ("volatile double*", "ptr"), ("XS2*", "ptr"), ("const XS2*", "ptr"), ("void**", "ptr"), ("int (*)[4]", "ptr"), ("const volatile int*", "ptr"), ("void* volatile*", "ptr"), ("void (**)()", "ptr"), ("int XS2::**", "ptr"), ("bool*", "ptr"), ("const char* const*", "ptr"), ("XU*", "ptr"), ("XE1*", "ptr"),
    ("void*", "other"), ("const void*", "other"), ("volatile void*", "other"), ("const volatile void*", "other"), ("void (*)()", "other"), ("int (*)(XS2&) ", "other"), ("void (*)(long) XNX", "other"), ("void (*)(...)", "other"), ("int* (*)(int*)", "other"), ("const int XS2::*", "other"), ("int (XS2::*)() const", "other"), ("int (XS2::*)() volatile XNX", "other"), ("int XS2::*", "other"), ("int (XS2::*)()", "other"),
    ("XS1", "other"), ("XS2", "other"), ("XS3", "other"), ("XS4", "other"), ("XU", "other"), ("XOA", "other"), ("XND", "other"), ("XBIG", "other"), ("XINC*", "ptr"),
]
DECLS = """
#if __cplusplus >= 201703L
#define XNX noexcept
#else
#define XNX
#endif
enum XE1 { xe1a, xe1b }; enum class XE2 : unsigned char { a, b }; enum class XE3 : long long { a, b }; enum class XE4 : bool { a, b }; enum XE5 : short { xe5a }; enum class XE6 { a, b };
struct XS1 { unsigned char a, b, c; }; struct XS2 { int a, b; int f(); }; struct XS3 { long a, b; }; struct XS4 { long a, b, c; };
union XU { int a; float b; };
struct XOA { int a; void operator&() const; bool operator==(XOA const&) const; };
struct XND { int a; explicit XND(int x) noexcept : a(x) {} };
struct XBIG { unsigned char a[200]; };
struct XINC;
"""
KIND_T = [("atomic", "boost::atomic< %s >", ""), ("ipc_atomic", "boost::ipc_atomic< %s >", ""), ("atomic_ref", "const boost::atomic_ref< %s >", ""),
          ("ipc_atomic_ref", "const boost::ipc_atomic_ref< %s >", ""), ("volatile atomic", "volatile boost::atomic< %s >", ""),
          ("volatile ipc_atomic", "volatile boost::ipc_atomic< %s >", ""), ("const atomic", "const boost::atomic< %s >", "const"),
          ("const volatile ipc_atomic", "const volatile boost::ipc_atomic< %s >", "const"),
          ("atomic_ref to const", "const boost::atomic_ref< typename std::add_const< %s >::type >", "const"),
          ("ipc_atomic_ref to const", "const boost::ipc_atomic_ref< typename std::add_const< %s >::type >", "const")]
ID = lambda n: "h_" + re.sub(r"\W", lambda m: "_%02x" % ord(m.group()), n)


def interface_unit(fp=True, int128=False, char8=False):
    s = ["#include <boost/atomic.hpp>", "#include <chrono>", "#include <utility>", "#include <type_traits>", "#include <cstddef>", DECLS,
         "template< typename... > struct vt { typedef void type; }; struct absent {};"]
    for n, (e, ret, ro) in ALLOPS.items():
        s.append("template< typename A, typename T, typename D, typename = void > struct %s { typedef absent type; };" % ID(n))
        s.append("template< typename A, typename T, typename D > struct %s< A, T, D, typename vt< decltype(%s) >::type > { typedef decltype(%s) type; };" % (ID(n), e, e))
    n = 0
    tl = TYPE_LIST + ([("__int128", "int"), ("unsigned __int128", "int")] if int128 else []) + ([("char8_t", "int")] if char8 else [])
    for cat in list(HAS):
        s.append("template< typename T, typename D > struct check_%s {" % cat)
        have = set()
        for g in HAS[cat]:
            have |= set(g)
        for kn, kt, c in KIND_T:
            s.append("typedef %s K_%s;" % (kt % "T", ID(kn)))
            for op, (e, ret, ro) in ALLOPS.items():
                if op in FREE.get(cat, ()):
                    continue
                exp = op in have
                cref = kn.endswith("to const")
                if cref and ro != 1:
                    continue
                if c and ro != 1:
                    # notify on a const atomic object is not required either way
                    if ro == 2:
                        continue
                    exp = False
                t = ret if exp else "absent"
                if exp and cref:
                    s.append('static_assert(std::is_same< typename std::remove_cv< typename %s< K_%s, T, D >::type >::type, %s >::value, "W|%s on %s of a %s type must exist and return its value type|");'
                             % (ID(op), ID(kn), t.replace("< T >", "< typename std::add_const< T >::type >"), op, kn, CATNAME[cat]))
                elif exp:
                    s.append('static_assert(std::is_same< typename %s< K_%s, T, D >::type, %s >::value, "W|%s on %s of a %s type must exist and return %s|");'
                             % (ID(op), ID(kn), t, op, kn, CATNAME[cat], ret))
                else:
                    s.append('static_assert(std::is_same< typename %s< K_%s, T, D >::type, absent >::value, "W|%s on %s of a %s type must not exist|");'
                             % (ID(op), ID(kn), op, kn, CATNAME[cat]))
                n += 1
            s.append('static_assert(std::is_convertible< K_%s&, T >::value, "W|%s of a %s type must convert to its value|");' % (ID(kn), kn, CATNAME[cat]))
            n += 1
        for tpl, kn in (("boost::atomic", "atomic"), ("boost::ipc_atomic", "ipc_atomic")):
            for cond, msg in (("std::is_same< typename %s< T >::value_type, T >::value" % tpl, "value_type must be T"),
                              ("std::is_constructible< %s< T >, T >::value" % tpl, "must be constructible from its value"),
                              ("!std::is_copy_assignable< %s< T > >::value" % tpl, "must not be copy-assignable"),
                              ("!std::is_copy_constructible< %s< T > >::value" % tpl, "must not be copy-constructible"),
                              ("std::is_same< decltype(std::declval< %s< T >& >().value()), typename std::add_lvalue_reference< T >::type >::value" % tpl, "value() must return a reference to the value"),
                              ("std::is_same< decltype(std::declval< const %s< T >& >().value()), typename std::add_lvalue_reference< typename std::add_const< T >::type >::type >::value" % tpl, "value() const must return a reference to const"),
                              ("std::is_same< decltype(std::declval< volatile %s< T >& >().value()), typename std::add_lvalue_reference< typename std::add_volatile< T >::type >::type >::value" % tpl, "value() volatile must return a reference to volatile"),
                              ):
                s.append('static_assert(%s, "W|%s of a %s type %s|");' % (cond, kn, CATNAME[cat], msg))
                n += 1
        for tpl, kn in (("boost::atomic_ref", "atomic_ref"), ("boost::ipc_atomic_ref", "ipc_atomic_ref")):
            CT = "typename std::add_const< T >::type"
            for cond, msg in (("std::is_same< typename %s< T >::value_type, T >::value" % tpl, "value_type must be T"),
                              ("std::is_constructible< %s< T >, T& >::value" % tpl, "must be constructible from the object"),
                              ("std::is_constructible< %s< %s >, T& >::value && std::is_constructible< %s< %s >, %s& >::value" % (tpl, CT, tpl, CT, CT), "to const must be constructible from the object"),
                              ("!std::is_convertible< T&, %s< T > >::value" % tpl, "must not be implicitly constructible"),
                              ("!std::is_constructible< %s< T >, %s& >::value" % (tpl, CT), "must not be constructible from a const object"),
                              ("!std::is_constructible< %s< T >, T >::value" % tpl, "must not be constructible from a temporary"),
                              ("!std::is_default_constructible< %s< T > >::value" % tpl, "must not be default-constructible"),
                              ("std::is_copy_constructible< %s< T > >::value" % tpl, "must be copy-constructible"),
                              ("!std::is_constructible< %s< T >, %s< %s > const& >::value" % (tpl, tpl, CT), "must not be constructible from a reference to const"),
                              ("std::is_same< decltype(std::declval< %s< T > const& >().value()), typename std::add_lvalue_reference< T >::type >::value" % tpl, "value() must return a reference to the object"),
                              ("std::is_same< decltype(boost::make_%s(std::declval< T& >())), %s< T > >::value" % (kn, tpl), "make_%s must deduce the type" % kn),
                              ("%s< T >::required_alignment >= alignof(T)" % tpl, "required_alignment must not be below the type's alignment"),
                              ):
                s.append('static_assert(%s, "W|%s of a %s type %s|");' % (cond, kn, CATNAME[cat], msg))
                n += 1
        s.append("};")
    # the flag
    for kn in ("atomic_flag", "ipc_atomic_flag"):
        for q in ("", "volatile "):
            o = "std::declval< %sboost::%s& >()" % (q, kn)
            for e, t in (("test()", "bool"), ("test(%s)" % MO, "bool"), ("test_and_set()", "bool"), ("test_and_set(%s)" % MO, "bool"), ("clear()", "void"), ("clear(%s)" % MO, "void"),
                         ("wait(true)", "bool"), ("wait(true, %s)" % MO, "bool"), ("wait_until(true, %s)" % TP, "boost::atomics::wait_result< bool >"),
                         ("wait_until(true, %s, %s)" % (TP, MO), "boost::atomics::wait_result< bool >"), ("wait_for(true, %s)" % DU, "boost::atomics::wait_result< bool >"),
                         ("wait_for(true, %s, %s)" % (DU, MO), "boost::atomics::wait_result< bool >"), ("notify_one()", "void"), ("notify_all()", "void"), ("is_lock_free()", "bool"), ("has_native_wait_notify()", "bool")):
                s.append('static_assert(std::is_same< decltype(%s.%s), %s >::value, "W|%s::%s must return %s|");' % (o, e, t, kn, e.split("(")[0], t))
                n += 1
        s.append('static_assert(std::is_default_constructible< boost::%s >::value && !std::is_copy_constructible< boost::%s >::value && !std::is_copy_assignable< boost::%s >::value, "W|%s must be default-constructible and not copyable|");' % (kn, kn, kn, kn))
        n += 1
    total = 0
    for i, (t, cat) in enumerate(tl):
        if cat == "fp" and not fp:
            cat = "other"
        d = "std::ptrdiff_t" if cat == "ptr" else "inst_t%d" % i
        s.append("using inst_t%d = %s; template struct check_%s< inst_t%d, %s >;" % (i, t, cat, i, d))
        total += n
    # typedef names
    for nm, t in TYPEDEFS:
        if not fp and nm in ("float_t", "double_t", "long_double_t"):
            continue
        s.append('static_assert(std::is_same< boost::atomic_%s, boost::atomic< %s > >::value, "W|boost::atomic_%s must be atomic< %s >|");' % (nm, t, nm, t))
        total += 1
    return "\n".join(s) + "\n", total


CATNAME = {"int": "integral", "bool": "bool", "enum": "enumeration", "fp": "floating-point", "ptr": "object pointer", "other": "class or non-object pointer"}
TYPEDEFS = [("char", "char"), ("uchar", "unsigned char"), ("schar", "signed char"), ("ushort", "unsigned short"), ("short", "short"), ("uint", "unsigned int"), ("int", "int"),
            ("ulong", "unsigned long"), ("long", "long"), ("ullong", "unsigned long long"), ("llong", "long long"), ("address", "void*"), ("bool", "bool"), ("wchar_t", "wchar_t"),
            ("char16_t", "char16_t"), ("char32_t", "char32_t"), ("intmax_t", "std::intmax_t"), ("uintmax_t", "std::uintmax_t"), ("size_t", "std::size_t"), ("ptrdiff_t", "std::ptrdiff_t"),
            ("intptr_t", "std::intptr_t"), ("uintptr_t", "std::uintptr_t"), ("float_t", "float"), ("double_t", "double"), ("long_double_t", "long double")]
for _b in (8, 16, 32, 64):
    for _u in ("", "u"):
        for _v in ("", "_least", "_fast"):
            TYPEDEFS.append(("%sint%s%d_t" % (_u, _v, _b), "std::%sint%s%d_t" % (_u, _v, _b)))


# --- A20: everything instantiates ---------------------------------------------------------------------------------------------------


def instantiate_unit(fp, int128, char8, fallback, cx16):
    """explicit instantiation of every supported class: every member function body, volatile overloads included, must compile"""
    s = ["#include <boost/atomic.hpp>", DECLS]
    tl = TYPE_LIST + ([("__int128", "int"), ("unsigned __int128", "int")] if int128 else []) + ([("char8_t", "int")] if char8 else [])
    n = 0
    for i, (t, cat) in enumerate(tl):
        s.append("using inst_t%d = %s;" % (i, t))
        if t == "XINC*":
            # arithmetic on pointers to incomplete types cannot be instantiated; everything else must
            for kn, kt, _ in KIND_T[:4]:
                if "ipc" in kn and fallback:
                    continue
                s.append("XINC* use_%s(%s& o, XINC*& e) { o.store(e); e = o.load(); e = o.exchange(e); o.compare_exchange_strong(e, e); o.compare_exchange_weak(e, e); o.notify_one(); o.notify_all(); return o.wait(e); }"
                         % (ID(kn), kt % t))
                n += 1
            continue
        if t == "XND":
            s.append("template class boost::atomic_ref< XND >;")
            n += 1
            continue
        big = t in ("XS4", "XBIG")
        sixteen = t.startswith("int (XS2::*)(") or t in ("XS3", "long double", "__int128", "unsigned __int128")
        for tpl in ("atomic", "atomic_ref", "ipc_atomic", "ipc_atomic_ref"):
            if "ipc" in tpl and (fallback or big or sixteen and not cx16 or tpl == "ipc_atomic_ref" and t == "XS1"):
                continue
            s.append("template class boost::%s< inst_t%d >;" % (tpl, i))
            n += 1
    return "\n".join(s) + "\n", n


# --- A20: rejected programs ---------------------------------------------------------------------------------------------------------

def reject_units():
    """(title, program that must compile, program that must not) differing in one construct"""
    out = []
    decl = "#include <boost/atomic.hpp>\nstruct Good { int a; };\nstruct Bad { int a; Bad(); Bad(Bad const&); Bad& operator=(Bad const&); };\nstruct Dtor { int a; ~Dtor(); };\nstruct Virt { int a; virtual void f(); };\nstruct Inc;\n"
    for tpl in ("atomic", "ipc_atomic", "atomic_ref", "ipc_atomic_ref"):
        for bad, why in (("Bad", "a type with a user-provided copy constructor"), ("Dtor", "a type with a user-provided destructor"), ("Virt", "a polymorphic type"), ("Inc", "an incomplete type")):
            prog = decl + "unsigned long f() { return sizeof(boost::%s< %%s >); }\n" % tpl
            out.append(("boost::%s of %s" % (tpl, why), prog % "Good", prog % bad))
    return out


# --- A21: exception specifications --------------------------------------------------------------------------------------------------

def noexcept_unit(fp, int128, char8):
    s = ["#include <boost/atomic.hpp>", "#include <utility>", "#include <type_traits>", "#include <cstddef>", DECLS, W.DECLS,
         "struct XTHROW { int a; XTHROW() noexcept(false); };"]
    per = 0
    for cat in HAS:
        s.append("template< typename T, typename D > struct nx_%s {" % cat)
        have = {}
        for g in HAS[cat]:
            have.update(g)
        for kn, kt, c in KIND_T:
            s.append("typedef %s K_%s;" % (kt % "T", ID(kn)))
            for op, (e, ret, ro) in have.items():
                if c and ro != 1:
                    continue
                e2 = e.replace("declval<A&>", "declval< K_%s& >" % ID(kn))
                s.append('static_assert(noexcept(%s), "W|%s on %s of a %s type must be noexcept|");' % (e2, op, kn, CATNAME[cat]))
                per += 1
            ob = "std::declval< K_%s& >()" % ID(kn)
            if not kn.endswith("to const"):
                s.append('static_assert(noexcept(static_cast< T >(%s)), "W|conversion of %s of a %s type must be noexcept|");' % (ob, kn, CATNAME[cat]))
            for k, (cpp, num, den, cid, thr) in W.CLOCKS.items():
                e = "%s.wait_until(std::declval< T >(), std::declval< std::chrono::time_point< %s, %s::duration > >(), %s)" % (ob, cpp, cpp, MO)
                s.append('static_assert(%snoexcept(%s), "W|wait_until of %s of a %s type %s|");' % ("!" if thr else "", e, kn, CATNAME[cat],
                         "must not be noexcept on a clock whose now() may throw" if thr else "must be noexcept on %s" % cpp))
                per += 1
            for d in ("std::chrono::nanoseconds", "std::chrono::seconds", "std::chrono::duration< int, std::ratio< 60 > >"):
                s.append('static_assert(noexcept(%s.wait_for(std::declval< T >(), std::declval< %s >())), "W|wait_for of %s of a %s type must be noexcept|");' % (ob, d, kn, CATNAME[cat]))
                per += 1
        for tpl in ("atomic", "ipc_atomic"):
            s.append('static_assert(std::is_nothrow_constructible< boost::%s< T >, T >::value, "W|construction of %s of a %s type must be noexcept|");' % (tpl, tpl, CATNAME[cat]))
            s.append('static_assert(std::is_nothrow_destructible< boost::%s< T > >::value, "W|destruction of %s must be noexcept|");' % (tpl, tpl))
        for tpl in ("atomic_ref", "ipc_atomic_ref"):
            s.append('static_assert(std::is_nothrow_constructible< boost::%s< T >, T& >::value && std::is_nothrow_copy_constructible< boost::%s< T > >::value && '
                     'noexcept(boost::make_%s(std::declval< T& >())), "W|construction of %s of a %s type must be noexcept|");' % (tpl, tpl, tpl, tpl, CATNAME[cat]))
        per += 6
        s.append("};")
    per //= len(HAS)
    total = 0
    tl = TYPE_LIST + ([("__int128", "int"), ("unsigned __int128", "int")] if int128 else []) + ([("char8_t", "int")] if char8 else [])
    for i, (t, cat) in enumerate(tl):
        if cat == "fp" and not fp:
            cat = "other"
        s.append("using inst_t%d = %s; template struct nx_%s< inst_t%d, %s >;" % (i, t, cat, i, "std::ptrdiff_t" if cat == "ptr" else "inst_t%d" % i))
        total += per
        if t != "XND":
            for tpl in ("atomic", "ipc_atomic"):
                s.append('static_assert(std::is_nothrow_default_constructible< boost::%s< inst_t%d > >::value, "W|default construction of %s< %s > must be noexcept|");' % (tpl, i, tpl, t))
                total += 1
    for kn in ("atomic_flag", "ipc_atomic_flag"):
        for q in ("", "volatile "):
            o = "std::declval< %sboost::%s& >()" % (q, kn)
            for e in ("test()", "test(%s)" % MO, "test_and_set()", "clear()", "wait(true)", "wait_for(true, std::declval< std::chrono::milliseconds >())", "notify_one()", "notify_all()", "is_lock_free()", "has_native_wait_notify()"):
                s.append('static_assert(noexcept(%s.%s), "W|%s::%s must be noexcept|");' % (o, e, kn, e.split("(")[0]))
                total += 1
            for k, (cpp, num, den, cid, thr) in W.CLOCKS.items():
                s.append('static_assert(%snoexcept(%s.wait_until(true, std::declval< std::chrono::time_point< %s, %s::duration > >())), "W|%s::wait_until %s|");'
                         % ("!" if thr else "", o, cpp, cpp, kn, "must not be noexcept on a clock whose now() may throw" if thr else "must be noexcept on %s" % cpp))
                total += 1
        s.append('static_assert(std::is_nothrow_default_constructible< boost::%s >::value, "W|default construction of %s must be noexcept|");' % (kn, kn))
    for f in ("atomic_thread_fence", "atomic_signal_fence"):
        s.append('static_assert(noexcept(boost::%s(%s)), "W|%s must be noexcept|");' % (f, MO, f))
    s.append('static_assert(noexcept(boost::atomics::thread_pause()), "W|thread_pause must be noexcept|");')
    return "\n".join(s) + "\n", total + 5


# --- A15 ----------------------------------------------------------------------------------------------------------------------------

def ipc_reject_units():
    """(title, text with the macros TPL / FLAG, flags): every operation of an inter-process object which is not lock-free"""
    out = []
    names = {"int": ("int", "int"), "enum": ("XE1", "XE1"), "fp": ("double", "double"), "ptr": ("int*", "std::ptrdiff_t"), "bool": ("bool", "bool"), "other": ("XS4", "XS4")}
    fb = ["-DBOOST_ATOMIC_FORCE_FALLBACK"]
    todo = []
    for cat, (t, d) in names.items():
        have = {}
        for g in HAS[cat]:
            have.update(g)
        for op, (e, ret, ro) in have.items():
            if op.endswith(" default") or op in ("is_lock_free", "has_native_wait_notify"):
                continue
            todo.append((cat, t, d, op, e, [] if cat == "other" else fb))
    # sizes which only atomic_ref cannot do natively, and 16 bytes without cmpxchg16b
    for t, kinds in (("XS1", ("atomic_ref",)), ("XS3", ("atomic", "atomic_ref"))):
        for op, (e, ret, ro) in COMMON.items():
            if op.endswith(" default") or op in ("is_lock_free", "has_native_wait_notify"):
                continue
            todo.append((t, t, t, op, e, [], kinds))
    for it in todo:
        cat, t, d, op, e, fl = it[:6]
        for kn in (it[6] if len(it) > 6 else ("atomic", "atomic_ref")):
            e2 = e.replace("std::declval<A&>()", "(*o)").replace("std::declval<T>()", "(*v)").replace("std::declval<T&>()", "(*v)").replace("std::declval<D>()", "(*d)")
            e2 = e2.replace("std::declval<std::chrono::steady_clock::time_point>()", "std::chrono::steady_clock::time_point()").replace("std::declval<std::chrono::milliseconds>()", "std::chrono::milliseconds(1)")
            text = "#include <boost/atomic.hpp>\n#include <chrono>\n#include <cstddef>\n" + DECLS + "using T = %s; using D = %s;\nvoid f(%sboost::PREFIX%s< T >* o, T* v, D* d) { (void)v; (void)d; %s; }\n" % (
                t, d, "const " if "ref" in kn else "", kn, e2)
            out.append(("%s of boost::ipc_%s< %s >" % (op, kn, t), text, fl))
    for e in ("test()", "test_and_set()", "clear()", "wait(true)", "wait_for(true, std::chrono::seconds(1))", "wait_until(true, std::chrono::steady_clock::time_point())", "notify_one()", "notify_all()"):
        out.append(("boost::ipc_atomic_flag::" + e.split("(")[0], "#include <boost/atomic.hpp>\n#include <chrono>\nvoid f(boost::PREFIXatomic_flag* o) { o->%s; }\n" % e, fb))
    return out


def ipc_rejections(r, comps):
    U = ipc_reject_units()
    for comp, std in comps:
        ctl = build.syntax_many([(comp, x.replace("PREFIX", ""), [std, "-w"] + fl) for t, x, fl in U])
        bad = build.syntax_many([(comp, x.replace("PREFIX", "ipc_"), [std, "-w"] + fl) for t, x, fl in U])
        for (t, x, fl), (rc, se), (rb, sb) in zip(U, ctl, bad):
            r.ob(1)
            if rc:
                r.finding("witness-control", t, "%s: the same program with the ordinary, lock-based class does not compile, so the rejection of the inter-process one shows nothing: %s"
                          % (t, "; ".join(l.split("error: ")[-1] for l in se.splitlines() if "error" in l)[:300]))
            elif not rb:
                r.finding("ipc-not-rejected", t, "%s (not lock-free, %s) compiles: it would use a lock of the process for memory shared with other processes" % (t, " ".join([std] + fl)))
        r.count("rejected inter-process programs, each with an accepted control", len(U))


def pointer_roots(v, seen=None):
    """arguments and globals a pointer value is derived from"""
    seen = set() if seen is None else seen
    out = set()
    work = [v]
    while work:
        x = work.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.kind in ("arg", "global"):
            out.add(x)
        elif x.kind in ("inst", "cexpr") and x.op in ("gep", "bitcast", "phi", "select", "addrspacecast", "freeze", "inttoptr", "ptrtoint", "add", "sub", "and", "or"):
            work += list(x.ops) if x.op != "gep" else [x.ops[0]]
    return out


def globals_of(v, seen):
    if v.kind == "global":
        yield v
    elif v.kind in ("cexpr", "agg"):
        for o in v.ops:
            yield from globals_of(o, seen)


def process_state(m, f, flag_addr=True):
    """uses, in f and the functions it calls, of memory that belongs to the process, and of the object's address as a number"""
    out = []
    seen, work = {f.name}, [(f, True)]
    n = 0
    while work:
        g, top = work.pop()
        for i in g.insts():
            n += 1
            for o in i.ops:
                for gl in globals_of(o, None):
                    d = m.globals.get(gl.name)
                    if d is not None and not d.attr.get("const"):
                        out.append((i, "uses the global %s, which every process has its own copy of" % llvm.demangle(gl.name)))
            if i.op in ("call", "invoke"):
                c = llvm.callee_name(i)
                if c and llvm.demangle(c).startswith("boost::atomics::detail::lock_pool::"):
                    out.append((i, "calls %s, which uses the lock pool of the process" % llvm.demangle(c).split("(")[0]))
                if c and c in m.functions and not m.functions[c].decl and c not in seen:
                    seen.add(c)
                    work.append((m.functions[c], False))
            if top and i.op == "ptrtoint":
                if any(a.kind == "arg" and a is g.args[0] for a in pointer_roots(i.ops[0])):
                    out.append((i, "computes with the address of the object"))
    return out, n


def _levels(r):
    return QUICK if r.tier == "quick" else LEVELS


def _feat(fl):
    return dict(int128=fl[0].startswith("-std=gnu"), char8=any(s in fl[0] for s in ("c++20", "c++2b", "c++23", "gnu++20")))


def ipc_state(r, cfgs, mode):
    """the IR of every inter-process operation and wait, and of everything they call"""
    jl = []
    for cfg in cfgs:
        for kind in ("ipc", "ipcref"):
            tys = [t for t in ALL if opcheck.supported(cfg, t, kind) and (not opcheck.t_padded(t) or cfg in opcheck.CLEARS_PADDING)]
            cs = [c for t in tys for c in cases.gen(t, kind, mode)]
            jl.append((cfg, kind + " operations", [(c.fn, c.title()) for c in cs], cases.unit(cs, build.CONFIGS[cfg][1])))
            ws = [c for t in tys if W.supported(cfg, t, kind) for c in W.gen(t, kind, "one")]
            jl.append((cfg, kind + " waits", [(c.fn, c.title()) for c in ws], W.unit(ws, build.CONFIGS[cfg][1])))
        cs = cases.gen("flag", "ipcflag", "all")
        jl.append((cfg, "ipcflag operations", [(c.fn, c.title()) for c in cs], cases.unit(cs, build.CONFIGS[cfg][1])))
        ws = W.gen("bool", "ipcflag", "all")
        jl.append((cfg, "ipcflag waits", [(c.fn, c.title()) for c in ws], W.unit(ws, build.CONFIGS[cfg][1])))
    bcs = build.compile_many([{"text": x[3], "flags": build.CONFIGS[x[0]][0], "name": "ipcstate"} for x in jl])
    nf = ni = 0
    for (cfg, what, cs, text), bc in zip(jl, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        m = llvm.Module(bc)
        for fn, title_ in cs:
            f = m.functions.get(fn)
            if f is None or f.decl:
                raise Broken("no code for %s" % title_)
            bad, n = process_state(m, f)
            nf += 1
            ni += n
            r.ob(1)
            for i, msg in bad:
                r.finding("process-state", loc_text(i.loc), "[%s] %s %s" % (cfg, title_, msg))
    r.count("inter-process operations whose code was scanned for per-process state", nf)
    r.count("instructions scanned", ni)
    r.need(nf > 100, "inter-process operations")


@check("A15")
def a15(r):
    q = r.tier == "quick"
    r.rule("process-state", "no operation or wait of ipc_atomic, ipc_atomic_ref, ipc_atomic_flag, and nothing it calls, refers to a mutable global, calls the lock pool, or computes with the address of the object")
    r.rule("ipc-private-futex / notify-missed", "inter-process waits and notifies use the shared form of the futex call, and each notify wakes through every mechanism a wait of the class blocks on")
    r.rule("ipc-not-rejected", "every operation of an inter-process object that is not lock-free fails to compile, while the same program with the ordinary class compiles (one program per operation)")
    r.assumptions += COMMON_ASSUME
    ipc_state(r, ["def", "snb", "arch", "noflag"] if q else NATIVE, "one" if q else "all")
    jl = wait.jobs(["def", "snb", "arch", "noflag"] if q else [c for c in ALLCFG if c not in ("fb", "gccfb")], ["ipc", "ipcref", "ipcflag"], ALL, "one" if q else "all")
    wait.drive(r, jl)
    ipc_rejections(r, [(GXX, "-std=c++17")] if q else [(GXX, "-std=c++11"), (GXX, "-std=c++20"), (CLANG, "-std=c++17")])
    wait.samples(r, jl)


@check("A20")
def a20(r):
    r.rule("interface", "for each value type, object kind and cv-qualification: the detected set of operations is exactly the documented one for the type's category, with the documented result types; "
           "copying, construction and conversion exactly as documented")
    r.rule("instantiation", "every supported class is instantiated explicitly, so that each member function body compiles, and every generated operation and wait compiles")
    r.rule("not-rejected", "value types that are not trivially copyable, or incomplete, fail to compile (with an accepted control)")
    lv = _levels(r)
    jobs, meta = [], []
    for comp, fl, pre in lv + [(GXX, ["-std=c++17", "-DBOOST_ATOMIC_NO_FLOATING_POINT"], ""), (CLANG, ["-std=c++17", "-DBOOST_ATOMIC_NO_FLOATING_POINT"], "")]:
        fp = "-DBOOST_ATOMIC_NO_FLOATING_POINT" not in fl
        t, n = interface_unit(fp=fp, **_feat(fl))
        jobs.append((comp, t, fl + ["-w"]))
        meta.append((title(comp, fl), n))
    judge(r, "interface", jobs, meta, "interface assertions compiled")
    jobs, meta = [], []
    for comp, fl, pre in lv:
        t, n = instantiate_unit(True, fallback="-DBOOST_ATOMIC_FORCE_FALLBACK" in fl, cx16="-march=sandybridge" in fl, **_feat(fl))
        jobs.append((comp, t, fl + ["-w"]))
        meta.append((title(comp, fl), n))
        for kinds in (("atomic", "ref"), ("ipc", "ipcref", "ipcflag", "flag")):
            fb = "-DBOOST_ATOMIC_FORCE_FALLBACK" in fl
            if fb and "ipc" in kinds:
                continue
            cs, ws = [], []
            for kind in kinds:
                for ty in (["flag"] if "flag" in kind else ALL):
                    if ty in ("s128", "u128") and not fl[0].startswith("-std=gnu"):
                        continue
                    cfg = "fb" if fb else "snb" if "-march=sandybridge" in fl else "def"
                    if ty != "flag" and (opcheck.t_padded(ty) or not opcheck.supported(cfg, ty, kind)):
                        continue
                    cs += cases.gen(ty, kind, "one")
                    ws += W.gen("bool" if ty == "flag" else ty, kind, "one")
            jobs.append((comp, cases.unit(cs), fl + ["-w"]))
            meta.append((title(comp, fl) + " operations of " + ",".join(kinds), len(cs)))
            jobs.append((comp, W.unit(ws), fl + ["-w"]))
            meta.append((title(comp, fl) + " waits of " + ",".join(kinds), len(ws)))
    judge(r, "instantiation", jobs, meta, "classes and operations instantiated")
    U = reject_units()
    for comp, fl in ((GXX, ["-std=c++11"]), (CLANG, ["-std=c++17"])):
        R = build.syntax_many([(comp, g, fl + ["-w"]) for t, g, b in U] + [(comp, b, fl + ["-w"]) for t, g, b in U])
        for (t, g, b), (rg, sg), (rb, sb) in zip(U, R[:len(U)], R[len(U):]):
            r.ob(1)
            if rg:
                r.finding("witness-control", t, "[%s] control program for %s does not compile: %s" % (title(comp, fl), t, sg[:200]))
            elif not rb:
                r.finding("not-rejected", t, "[%s] %s is accepted" % (title(comp, fl), t))
        r.count("rejected programs, each with an accepted control", len(U))
    r.sample("std::is_same< decltype(declval< const atomic_ref<int>& >().fetch_add(declval<int>(), seq_cst)), int >")
    r.sample("no expression declval< atomic<double>& >().fetch_and(...) is well-formed")


@check("A21")
def a21(r):
    q = r.tier == "quick"
    r.rule("noexcept", "static_assert(noexcept(op)) for every operation, constructor, conversion and fence, for every value type, object kind and qualification; "
           "timed waits: noexcept exactly on clocks whose now() is noexcept")
    r.rule("exception-terminates / lock-not-released / wait-state-leak", "in the code of every timed wait, the exceptional exit of a throwing clock reaches the caller, with the internal lock released and the waiter entry freed")
    jobs, meta = [], []
    for comp, fl, pre in _levels(r):
        t, n = noexcept_unit(True, **_feat(fl))
        jobs.append((comp, t, fl + ["-w"]))
        meta.append((title(comp, fl), n))
    judge(r, "noexcept", jobs, meta, "noexcept assertions compiled")
    r.assumptions += COMMON_ASSUME
    jl = wait.jobs(["def", "fb", "snb", "noflag"] if q else ALLCFG, ["atomic", "ref", "ipc", "flag"] if q else wait.KINDS + ["flag", "ipcflag"], wait.REPR if q else ALL, "one", ("wait_until", "wait_for"))
    wait.drive(r, jl)
    wait.samples(r, jl)


MANIFEST = {
    "A15": ("effect analysis over the IR of every inter-process operation and wait (no per-process state, shared futex calls) and compile-fail witnesses with accepted controls", "every value type and operation; the futex system call and the kernel are trusted"),
    "A20": ("type-level encoding: detection-idiom tables, result types and explicit instantiations compiled by g++ and clang in every language level; compile-fail witnesses with accepted controls", "value types enumerated per category"),
    "A21": ("type-level encoding: static_assert(noexcept(...)) for every operation; typestate over the exceptional paths of timed waits", "every value type category and object kind"),
}
