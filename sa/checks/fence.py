"""Fences (A22): every path of every fence, for each order, as a sequence of barrier events."""
from . import check
from .. import build, llvm, terms as T, poolcheck
from ..engine import Engine, State, Domain, Incomplete
from ..report import loc_text, Broken
from ..effects import bits_of, short, LP
from ..cases import ORDERS, _VAL
from .ops import ALLCFG, COMMON_ASSUME, P64, P32, WORD

UNIT = """
#include <boost/atomic/fences.hpp>
extern "C" {
%s
__attribute__((noinline,used)) void tf_var(boost::memory_order o) { boost::atomic_thread_fence(o); }
__attribute__((noinline,used)) void sf_var(boost::memory_order o) { boost::atomic_signal_fence(o); }
}
"""
EACH = """__attribute__((noinline,used)) void tf_%s() { boost::atomic_thread_fence(boost::memory_order_%s); }
__attribute__((noinline,used)) void sf_%s() { boost::atomic_signal_fence(boost::memory_order_%s); }
"""


class FenceDomain(Domain):
    """records 'c' (compiler barrier), 'h' (hardware barrier instruction that does not stop the compiler), 'f' (both in one)"""

    def __init__(self):
        self.finals = []
        self.bad = []

    def ev(self, s, i, what):
        s.ts["ev"] = s.ts.get("ev", ()) + ((what, id(i)),)
        s.note(i, {"c": "compiler barrier", "h": "processor barrier", "f": "full barrier"}[what])

    def on_fence(self, e, s, i, order, st):
        b = bits_of(order)
        if not st:
            s.ts["bits"] = s.ts.get("bits", ()) + ((b, id(i)),)
        self.ev(s, i, "f" if b == 7 and not st else "c")
        return None

    def on_risc_fence(self, e, s, i, bits):
        if bits != "isync":
            s.ts["bits"] = s.ts.get("bits", ()) + ((bits, id(i)),)
            s.note(i, "barrier")

    def on_hw_fence(self, e, s, i, mn):
        if mn == "mfence":
            self.ev(s, i, "h")
        return None

    def on_compiler_barrier(self, e, s, i):
        self.ev(s, i, "c")
        return None

    def local(self, region):
        return isinstance(region, tuple) and region and region[0] in ("alloca", "A", "L")

    def acc_store(self, e, s, i, region, off, size, v, order, atomic):
        self.touch(e, s, i, region, "a store")
        return Domain.acc_store(self, e, s, i, region, off, size, v, order, atomic)

    def acc_rmw(self, e, s, i, region, off, size, f, order, locked=True):
        self.touch(e, s, i, region, "a read-modify-write")
        r = Domain.acc_rmw(self, e, s, i, region, off, size, f, order, locked)
        if locked and i.op in ("call", "invoke"):
            for s2, _ in r:
                self.ev(s2, i, "h")
        return r

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        self.touch(e, s, i, region, "a compare-exchange")
        r = Domain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        if i.op in ("call", "invoke"):
            for x in r:
                self.ev(x[0], i, "h")
        return r

    def touch(self, e, s, i, region, what):
        if not self.local(region):
            self.bad.append(("fence-modifies-memory", i.loc, "%s on memory that is not the fence's own" % what))

    def on_call(self, e, s, i, name, args):
        d = short(name) if name else "<indirect call>"
        if d.startswith(LP + "thread_fence("):
            s = s.copy()
            self.ev(s, i, "f")
            s.env[i] = T.C(1, 0)
            return [s]
        if d.startswith(LP + "signal_fence("):
            s = s.copy()
            self.ev(s, i, "c")
            s.env[i] = T.C(1, 0)
            return [s]
        raise Incomplete("call of %s" % d)

    def on_return(self, e, s, rv, i):
        self.finals.append(s)


def strength(s):
    """0 nothing, 1 compiler barrier, 2 full barrier"""
    ev = s.ts.get("ev", ())
    if not ev:
        return 0
    h = [k for k, (w, i) in enumerate(ev) if w == "h"]
    for k in h:
        same = any(w == "c" and i == ev[k][1] for w, i in ev)
        if same or any(w in "cf" for w, _ in ev[:k]) and any(w in "cf" for w, _ in ev[k + 1:]):
            return 2
    if any(w == "f" for w, _ in ev):
        return 2
    return 1 if any(w == "c" for w, _ in ev) else 0


NEED = {"relaxed": 0, "consume": 0, "acquire": 1, "release": 2, "acq_rel": 3, "seq_cst": 7}


def hwbits(s):
    """ordering bits of the processor barriers on this path that are compiler barriers too"""
    ev = s.ts.get("ev", ())
    r = 0
    for b, i in s.ts.get("bits", ()):
        if any(w in "cf" and j == i for w, j in ev):
            r |= b
    return r


def run(fn, arg=None, arch="x86"):
    dm = FenceDomain()
    dm.arch = arch
    e = Engine(fn, dm)
    st = State()
    e.run(st, None if arg is None else [T.C(32, arg)])
    if not dm.finals:
        raise Incomplete("no path returns")
    return dm, e


def judge(r, cfg, title, fn, order, thread, arg=None):
    arch = build.arch(cfg)
    try:
        dm, e = run(fn, arg, arch)
    except Incomplete as x:
        r.undecided.append(("incomplete", title, str(x)))
        return
    want = 0 if order == "relaxed" else 2 if thread and order == "seq_cst" else 1
    r.ob(len(dm.finals))
    r.count("paths through fences judged", len(dm.finals))
    for s in dm.finals:
        k = strength(s)
        if arch != "x86" and thread:
            k = 0 if k == 0 else want if NEED[order] & ~hwbits(s) == 0 else -1
        if k < want:
            loc = next((x[1] for x in s.trail if x[1]), ()) or next((i.loc for i in fn.insts() if i.loc), ())
            r.finding("fence-too-weak", loc_text(loc), "[%s] %s: %s" % (cfg, title, "the compiler may move memory accesses across it" if k == 0 else "the processor barriers on this path do not provide the order" if k < 0 else
                      "no instruction on this path orders earlier stores before later loads"), ["%s  %s" % (t[0], loc_text(t[1])) for t in s.trail])
            break
    for rule, loc, msg in dm.bad + [(x[0], x[1], x[2]) for x in e.asm_findings]:
        r.finding(rule, loc_text(loc), "[%s] %s: %s" % (cfg, title, msg))


@check("A22")
def a22(r):
    r.rule("fence-too-weak", "every path of atomic_thread_fence / atomic_signal_fence, for every constant order and every run-time order, contains a compiler barrier when the order is stronger than relaxed, "
           "and for a sequentially consistent thread fence a full processor barrier inside it (fence seq_cst, or mfence / a locked instruction in an asm with a memory clobber)")
    r.rule("fence-modifies-memory", "a fence writes only to its own local variables, and its asm block declares what it changes")
    r.assumptions += [COMMON_ASSUME[0]] if COMMON_ASSUME else []
    text = UNIT % "".join(EACH % (o, o, o, o) for o in ORDERS)
    cfgs = ALLCFG + ["port", "sync"] + P64 + P32 + WORD
    bcs = build.compile_many([{"text": build.CONFIGS[c][1] + text, "flags": build.CONFIGS[c][0], "name": "fence_" + c} for c in cfgs])
    n = 0
    for cfg, bc in zip(cfgs, bcs):
        if isinstance(bc, build.BuildError):
            raise bc
        m = llvm.Module(bc)
        for p, thread, nm in (("tf", True, "atomic_thread_fence"), ("sf", False, "atomic_signal_fence")):
            for o in ORDERS:
                for fn, arg in ((p + "_" + o, None), (p + "_var", _VAL[o])):
                    f = m.functions.get(fn)
                    if f is None or f.decl:
                        raise Broken("no code for %s in %s" % (fn, cfg))
                    judge(r, cfg, "%s(%s)%s" % (nm, o, "" if arg is None else " with the order known at run time"), f, o, thread, arg)
                    n += 1
    r.count("fence instances", n)
    # the library's own fences, which headers without native fences call
    for cfg in ("def", "snb"):
        m = poolcheck.load_module(cfg)
        k = 0
        for f in list(m.functions.values()):
            d = llvm.demangle(f.name)
            if f.decl:
                continue
            for nm, thread in (("thread_fence", True), ("signal_fence", False)):
                if d == LP + nm + "()":
                    judge(r, cfg, "lock_pool::" + nm, f, "seq_cst", thread)
                    k += 1
        r.need(k == 2, "lock_pool::thread_fence and signal_fence in %s" % cfg)
        r.count("library fences", k)
    r.sample("atomic_thread_fence(seq_cst) in every configuration: 'lock; notb' on a local, memory clobber")


MANIFEST = {"A22": ("typestate over every path of the compiled fences: sequence of compiler and processor barrier events", "x86: stores are reordered only after later loads, locked instructions and mfence are full barriers; other processors: the documented strength of their barrier instructions")}
