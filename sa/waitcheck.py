"""Waiting and notifying operations: typestate of one wait / notify call.

Adds to the operation domain (sa/effects.py) the blocking primitives: the
internal lock pool's wait protocol, the futex system call, sleeping and
pausing, and clocks.  Time is symbolic: TP (deadline) and DUR (duration)
arguments and one symbol per clock-reading call site, re-issued at every
reading, so a deadline computation can only be right when it used the latest
reading."""
import itertools, multiprocessing as mp, collections
from . import terms as T, evalterm, build, cases, llvm, effects, opcheck
from .engine import Engine, State, Incomplete
from .effects import OpDomain, Finding, LP, short, bits_of
from .cases import TYPES, ORDERS, LOAD_ORDERS
from .llvm import demangle

NS = 1000000000
E_AGAIN, E_INTR, E_TIMEDOUT, E_NOSYS = 11, 4, 110, 38

# name -> (C++ clock, ns per tick numerator, denominator, posix clock id or None, may throw)
CLOCKS = {
    "sys": ("std::chrono::system_clock", 1, 1, 0, False),
    "steady": ("std::chrono::steady_clock", 1, 1, None, False),
    "ns": ("VClkNs", 1, 1, None, False),
    "us": ("VClkUs", 1000, 1, None, False),
    "ps": ("VClkPs", 1, 1000, None, False),
    "thr": ("VClkThr", 1, 1, None, True),
    "mono": ("VClkMono", 1, 1, 1, False),
    "rt": ("VClkRt", 1, 1, 0, False),
    "boot": ("VClkBoot", 1, 1, 7, False),
}
MONOTONIC = {"steady", 1}

DECLS = r"""
#include <chrono>
#include <ratio>
#include <time.h>
#include <boost/atomic/posix_clock_traits_fwd.hpp>
#define VCLK(N, P, X, E) extern "C" long verif_now_##E() X; struct N { typedef std::chrono::duration< long, P > duration; typedef long rep; typedef P period; \
  typedef std::chrono::time_point< N > time_point; static constexpr bool is_steady = false; static time_point now() X { return time_point(duration(verif_now_##E())); } };
VCLK(VClkNs, std::nano, noexcept, ns)
VCLK(VClkUs, std::micro, noexcept, us)
VCLK(VClkPs, std::pico, noexcept, ps)
VCLK(VClkThr, std::nano, , thr)
VCLK(VClkMono, std::nano, noexcept, mono)
VCLK(VClkRt, std::nano, noexcept, rt)
VCLK(VClkBoot, std::nano, noexcept, boot)
extern "C" void verif_to_timespec(long, timespec*) noexcept;
namespace boost { namespace atomics {
#define VTR(N, I) template< > struct posix_clock_traits< N > { static constexpr clockid_t clock_id = I; static timespec to_timespec(N::time_point t) noexcept { timespec r; verif_to_timespec(t.time_since_epoch().count(), &r); return r; } };
VTR(VClkMono, CLOCK_MONOTONIC)
VTR(VClkRt, CLOCK_REALTIME)
VTR(VClkBoot, CLOCK_BOOTTIME)
}}
"""

KINDS = dict(cases.KINDS)
KINDS["cref"] = ("boost::atomic_ref< %s const > const", "<boost/atomic/atomic_ref.hpp>")
KINDS["flag"] = ("boost::atomic_flag", "<boost/atomic/atomic_flag.hpp>")
KINDS["ipcflag"] = ("boost::ipc_atomic_flag", "<boost/atomic/ipc_atomic_flag.hpp>")
IPC = ("ipc", "ipcref", "ipcflag")


class WCase:
    __slots__ = ("fn", "ty", "kind", "op", "so", "clk", "unit", "expr", "dflt")

    def title(self):
        return "%s::%s(%s%s)" % (KINDS[self.kind][0] % TYPES[self.ty].cpp if "%s" in KINDS[self.kind][0] else KINDS[self.kind][0], self.op,
                                 self.so or "", (", " + self.clk) if self.clk else "")


def gen(ty, kind, mode="one", seq=0, ops=None):
    if ops is not None:
        return [c for c in gen(ty, kind, mode, seq) if c.op in ops]
    out = []
    cnt = [seq]

    def mk(op, expr, so=None, clk=None, unit=(1, 1), dflt=False):
        c = WCase()
        c.fn = "x_%s_%s_%d" % (kind, ty, len(out))
        c.ty, c.kind, c.op, c.so, c.clk, c.unit, c.expr, c.dflt = ty, kind, op, so, clk, unit, expr, dflt
        out.append(c)

    def orders():
        cnt[0] += 1
        l = LOAD_ORDERS if mode == "all" else [LOAD_ORDERS[cnt[0] % 4]]
        return [(o, ", boost::memory_order_" + o) for o in l] + ([("seq_cst", "")] if mode == "all" or cnt[0] % 5 == 0 else [])
    for so, a in orders() + ([("seq_cst", "")] if mode != "all" else []):
        mk("wait", "*r = o->wait(*a%s);" % a, so)
    if kind == "cref":
        return out
    for k, (cpp, num, den, cid, thr) in CLOCKS.items():
        for so, a in orders():
            mk("wait_until", "auto x = o->wait_until(*a, std::chrono::time_point< %s, %s::duration >(%s::duration(*tm))%s); *r = x.value; *to = x.timeout;" % (cpp, cpp, cpp, a), so, k, (num, den))
    for so, a in orders():
        mk("wait_until", "auto x = o->wait_until(*a, std::chrono::time_point< std::chrono::system_clock, std::chrono::seconds >(std::chrono::seconds(*tm))%s); *r = x.value; *to = x.timeout;" % a, so, "sys", (NS, 1))
    for d, u in (("std::chrono::nanoseconds", 1), ("std::chrono::milliseconds", 1000000), ("std::chrono::duration< int, std::ratio< 60 > >", 60 * NS)):
        for so, a in orders():
            mk("wait_for", "auto x = o->wait_for(*a, %s(*tm)%s); *r = x.value; *to = x.timeout;" % (d, a), so, "steady", (u, 1))
    mk("notify_one", "o->notify_one();")
    mk("notify_all", "o->notify_all();")
    return out


def unit(cs, prelude=""):
    hdr = sorted({KINDS[c.kind][1] for c in cs})
    s = [prelude] + ["#include %s" % h for h in hdr] + ["#include <cstddef>", "#include <boost/memory_order.hpp>", DECLS]
    decls = []
    for c in cs:
        d = TYPES[c.ty].decl
        if d and d not in decls:
            decls.append(d)
    s += decls
    seen = set()
    for c in cs:
        ns = "ns_%s_%s" % (c.kind, c.ty)
        t = TYPES[c.ty].cpp
        if ns not in seen:
            seen.add(ns)
            k = KINDS[c.kind][0]
            s.append("namespace %s { typedef %s; typedef %s OBJ; }" % (ns, cases.tdef(t, "T"), k % "T" if "%s" in k else k))
        s.append("namespace %s { extern \"C\" __attribute__((noinline,used)) void %s(OBJ* o, T const* a, T* r, unsigned char* to, const long* tm) { %s } }" % (ns, c.fn, c.expr))
    return "\n".join(s) + "\n"


# ---------------------------------------------------------------- time
def is_time(n):
    return n in ("TP", "DUR") or isinstance(n, tuple) and n and n[0] in ("NOW", "NOWS", "NOWN", "TSS", "TSN")


CAND = {"t": [0, 1, -1, 2, 999, 1000, 1001, -7, NS - 1, NS, NS + 1, 5 * NS + 7, -NS, -5 * NS - 3, 1 << 40],
        "n": [0, 1, 999999999, 500000000], "s": [0, 1, 7, 1 << 30]}


def candidates(x, lim):
    n = x[2]
    if n in ("TP", "DUR") or n[0] == "NOW":
        c = CAND["t"]
        if not isinstance(n, tuple):
            c = [v for v in c if abs(v) <= lim]
        if isinstance(n, tuple) and n[0] == "NOW":
            c = [v for v in c if v >= 0]
        return c
    if n[0] == "NOWN" or n[0] == "TSN":
        return CAND["n"]
    return CAND["s"] + ([-1, -5] if n[0] == "TSS" else [])


_smemo = {}


def sampled(s, pred, extra=(), tag=None, lim=1 << 41):
    k = (tag, lim, tuple(extra), frozenset((t, v) for t, v in s.facts.items() if all(is_time(n) for n in T.symbols(t))))
    r = _smemo.get(k)
    if r is None:
        r = _smemo[k] = sampled1(s, pred, extra, lim)
    return r


def sampled1(s, pred, extra, lim):
    """pred(evaluate) must hold for every sampled valuation of the time symbols that satisfies the path's facts on them.
    -> (ok, number of valuations, counterexample)"""
    tf = []
    syms = set()
    for t, v in s.facts.items():
        ns = T.symbols(t)
        if ns and all(is_time(n) for n in ns):
            tf.append((t, v))
            evalterm.symterms(t, syms)
    for t in extra:
        evalterm.symterms(t, syms)
    syms = sorted((x for x in syms), key=T.key)
    if any(not is_time(x[2]) for x in syms):
        return False, 0, "depends on something else than the deadline and the latest clock readings"
    n = 0
    for asg in itertools.product(*[candidates(x, lim) for x in syms]):
        d = {x: v & ((1 << x[1]) - 1) for x, v in zip(syms, asg)}
        memo = {}
        try:
            if any(bool(evalterm.ev(t, d.__getitem__, memo)) != v for t, v in tf):
                continue
            n += 1
            if not pred(lambda t: evalterm.sx(evalterm.ev(t, d.__getitem__, memo), t[1])):
                return False, n, ", ".join("%s=%d" % (T.show(x), v) for x, v in zip(syms, asg))
        except evalterm.Unknown:
            return None, n, "not evaluable"
    return True, n, None


class WaitDomain(OpDomain):
    def __init__(self, shared, size, old, plain, case, lockfree):
        OpDomain.__init__(self, shared, size, old, plain)
        self.case = case
        self.lockfree = lockfree
        self.blocks = set()      # (mechanism, detail)
        self.unwinds = 0
        self.sampled = 0
        self.exact = 0
        self.V = None
        self.lim = 1 << 41

    # ---- observation of the object
    def acc_load(self, e, s, i, region, off, size, order, atomic):
        if region != self.shared:
            return OpDomain.acc_load(self, e, s, i, region, off, size, order, atomic)
        s = s.copy()
        h = s.ts.get("held")
        if h and not self.lockfree:
            t = e.mem_read(s, region, off, size)
            s.ts["obs"] = (e.mem_read(s, region, 0, self.size), "locked", 7, False)
            s.ts["olk"] = True
            return [(s, t)]
        s.ts.pop("held", None)
        out = OpDomain.acc_load(self, e, s, i, region, off, size, order, atomic)
        for s2, t in out:
            if h:
                s2.ts["held"] = h
            s2.ts["olk"] = bool(h)
        return out

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        if region != self.shared or not self.lockfree:
            return OpDomain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        s = s.copy()
        h = s.ts.pop("held", None)
        out = OpDomain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        for s2, ok, obs in out:
            if h:
                s2.ts["held"] = h
            s2.ts["olk"] = bool(h)
        return out

    def eqterm(self, s):
        o = s.ts.get("obs")
        if o is None:
            return None
        return T.icmp("eq", o[0], effects.pad(self.V, o[0][1]))

    def before_block(self, e, s, i, what, locked):
        o = s.ts.get("obs")
        if o is None:
            self.find("block-on-stale-value", s, i, "%s without having re-read the object since the last time the thread slept or since entry" % what)
        elif o[1] == "plain":
            self.find("block-on-stale-value", s, i, "%s after a non-atomic read of the object" % what)
        else:
            if s.decide(self.eqterm(s)) is not True and effects.same(o[0], effects.pad(self.V, o[0][1]), s) is not True:
                self.find("block-on-changed-value", s, i, "%s on a path where the object is not known to still hold the value waited on" % what)
            if locked and not s.ts.get("olk"):
                self.find("check-outside-lock", s, i, "%s, but the object was last read before the lock was taken: a notify in between is lost" % what)

    def slept(self, e, s, i, what):
        s.rename(lambda n: n in self.oldnames)
        s.ts.pop("obs", None)
        s.ts.pop("fresh", None)
        s.ts.pop("ev", None)
        s.ts.pop("olk", None)
        s.ts["slept"] = True
        s.ts.pop("np", None)
        if s.ts.get("held") and not self.lockfree:
            s.mem[self.shared] = ((0, self.size, self.oldterm),)
        s.note(i, what)

    # ---- clocks
    def reading(self, s, i, clk, term):
        base = s.ts.get("base", ())
        if not s.ts.get("slept") and len(base) < 4:
            s.ts["base"] = base + ((clk, term),)
        s.ts["now"] = (clk, term)
        s.ts["fresh"] = True
        s.ts.pop("np", None)
        s.note(i, "read clock %s" % clk)

    def reissue(self, s, nm):
        def has(t):
            return nm in T.symbols(t)
        if any(has(t) for _, t in s.ts.get("base", ())):
            s.ts["base"] = tuple(x for x in s.ts["base"] if not has(x[1]))
        s.rename(lambda n: n == nm)

    def deadlines(self, s, clk):
        """terms (in the clock's ticks scaled to ns where exact) the call must not outlast, measured on clock clk"""
        num, den = self.case.unit
        if self.case.op == "wait_for":
            D = T.sext(self.dur, 64)
            return [T.add(t, T.scale(D, num)) for c, t in s.ts.get("base", ()) if c == clk]
        return [self.tp]

    def remaining_ok(self, e, s, i, R, what):
        """relative timeout R (ns) must be deadline - latest reading, rounded up"""
        now = s.ts.get("now")
        num, den = self.case.unit
        if not s.ts.get("fresh") or now is None:
            self.find("timeout-not-recomputed", s, i, "%s with a relative timeout that was not recomputed from a clock reading made since the thread last slept" % what)
            return
        if self.case.op == "wait_for":
            if now[0] not in MONOTONIC:
                self.find("clock-not-steady", s, i, "wait_for measures time on clock %s, which is not steady" % now[0])
            ds = self.deadlines(s, now[0])
            want = [T.sub(d, now[1]) for d in ds]
        else:
            if now[0] not in (self.case.clk, CLOCKS[self.case.clk][3]) and not (self.case.clk == "steady" and now[0] == 1):
                self.find("wrong-clock", s, i, "the remaining time is computed from clock %s, the deadline is on clock %s" % (now[0], self.case.clk))
            want = [T.scale(T.sub(self.tp, now[1]), num)] if den == 1 else []
        if R in want:
            self.exact += 1
        else:
            if self.case.op == "wait_for" and not want:
                self.find("deadline-moves", s, i, "%s: the deadline is not derived from a clock reading made before the thread first slept, so every wake-up extends it" % what)
                return
            if den != 1:
                def pred(E):
                    x = E(self.tp) - E(now[1])
                    return E(R) == -((-x * num) // den)
                ok, n, cex = sampled(s, pred, (R, self.tp, now[1]), 'ceil%d/%d' % (num, den), self.lim)
            else:
                ok, n, cex = False, 0, None
                for w in want:
                    ok, n, cex = sampled(s, lambda E: E(R) == E(w), (R, w), 'eq', self.lim)
                    if ok:
                        break
            self.sampled += n
            if ok is not True:
                self.find("wrong-timeout", s, i, "%s: relative timeout is %s, must be the time left until the deadline%s" % (what, T.show(R), " (differs for %s)" % cex if cex else ""))
                return
        ok, n, cex = sampled(s, lambda E: E(R) > 0, (R,), 'pos', self.lim)
        self.sampled += n
        if ok is not True:
            self.find("block-after-deadline", s, i, "%s although the deadline may have been reached already (%s)" % (what, cex))

    def timespec(self, e, s, i, ptr, what):
        reg, off = e.resolve(ptr)
        if off is None:
            raise Incomplete("timespec address")
        sec, nsec = e.mem_read(s, reg, off, 8), e.mem_read(s, reg, off + 8, 8)
        tot = T.add(T.scale(sec, NS), nsec)
        ok, n, cex = sampled(s, lambda E: 0 <= E(nsec) < NS and E(sec) >= 0, (sec, nsec), 'ts', self.lim)
        self.sampled += n
        if ok is not True:
            self.find("bad-timespec", s, i, "%s: the timespec passed to the system is not normalised or negative (%s)" % (what, cex))
        return tot

    def absolute_ok(self, e, s, i, tot, cid, what):
        num, den = self.case.unit
        c = self.case
        if c.op == "wait_for":
            if cid != 1:
                self.find("clock-not-steady", s, i, "%s: wait_for blocks until an absolute time of clock %s" % (what, cid))
            want = [d for k in (cid, "steady" if cid == 1 else "sys") for d in self.deadlines(s, k)]
        else:
            if CLOCKS[c.clk][3] != cid and not (c.clk == "steady" and cid == 1):
                self.find("wrong-clock", s, i, "%s: blocks on clock id %s, the deadline is on clock %s" % (what, cid, c.clk))
            want = [T.scale(self.tp, num)]
            ts = s.ts.get("tots")
            if ts is not None:
                want = [ts]
        if tot in want:
            self.exact += 1
            return
        for w in want:
            ok, n, cex = sampled(s, lambda E: E(tot) == E(w), (tot, w), 'eq', self.lim)
            self.sampled += n
            if ok:
                return
        self.find("wrong-timeout", s, i, "%s: absolute timeout is %s, must be the deadline" % (what, T.show(tot)))

    # ---- calls
    def pre_call(self, e, s, i, name, args):
        d = short(name)
        if d.startswith(LP):
            return self.pool_call(e, s, i, d[len(LP):].split("(")[0], args)
        if name == "syscall":
            return self.syscall(e, s, i, args)
        if name == "__errno_location":
            s = s.copy()
            s.env[i] = T.S(64, ("&", ("ERRNO",)))
            return [s]
        if name in ("nanosleep", "clock_nanosleep", "usleep", "sched_yield", "pthread_yield"):
            s = s.copy()
            self.poll(e, s, i, name)
            s.env[i] = T.C(32, 0)
            return [s]
        if name.startswith("verif_now_") or d in ("std::chrono::_V2::steady_clock::now()", "std::chrono::_V2::system_clock::now()"):
            clk = name[len("verif_now_"):] if name.startswith("verif_now_") else ("steady" if "steady" in d else "sys")
            s = s.copy()
            nm = ("NOW", i.idx)
            self.reissue(s, nm)
            t = T.S(64, nm)
            s.env[i] = t
            self.reading(s, i, clk, t)
            return [s]
        if name == "clock_gettime":
            if not T.isc(args[0]):
                raise Incomplete("clock id")
            s2 = s.copy()
            s2.env[i] = T.C(32, 0xffffffff)
            s2.mem[("ERRNO",)] = ((0, 4, T.C(32, 22)),)
            s = s.copy()
            for nm in (("NOWS", i.idx), ("NOWN", i.idx)):
                self.reissue(s, nm)
            a, b = T.S(64, ("NOWS", i.idx)), T.S(64, ("NOWN", i.idx))
            reg, off = e.resolve(args[1])
            e.mem_write(s, reg, off, 8, a)
            e.mem_write(s, reg, off + 8, 8, b)
            s.env[i] = T.C(32, 0)
            self.reading(s, i, args[0][2], T.add(T.scale(a, NS), b))
            return [s, s2]
        if name == "verif_to_timespec":
            s = s.copy()
            if args[0] != self.tp:
                self.find("wrong-timeout", s, i, "to_timespec is applied to %s, must be the deadline" % T.show(args[0]))
            reg, off = e.resolve(args[1])
            a, b = T.S(64, ("TSS", 0)), T.S(64, ("TSN", 0))
            e.mem_write(s, reg, off, 8, a)
            e.mem_write(s, reg, off + 8, 8, b)
            s.ts["tots"] = T.add(T.scale(a, NS), b)
            return [s]
        return None

    def need_ws(self, s, i, f, args):
        h = s.ts.get("held")
        if not h or args[0] != h[0]:
            self.find("wait-state-without-lock", s, i, "%s called without holding the lock it is given" % f)
            return False
        return True

    def pool_call(self, e, s, i, f, args):
        s = s.copy()
        if self.case.kind in IPC:
            self.find("ipc-per-process-state", s, i, "inter-process operation uses the process-local lock pool (%s)" % f)
        if f in ("short_lock", "long_lock"):
            if s.ts.get("held"):
                self.find("nested-lock", s, i, "%s while a pool lock is already held" % f)
            self.locks.add((f, args[0]))
            r = T.S(64, ("lk", i.idx))
            s.ts["held"] = (r, None, args[0])
            s.env[i] = r
            s.ts.pop("olk", None)
            if not self.lockfree:
                self.observe(e, s, i)
                s.ts.pop("obs", None)
                s.mem[self.shared] = ((0, self.size, self.oldterm),)
            s.note(i, f)
            return [s]
        h = s.ts.get("held")
        if f == "unlock":
            if not h or args[0] != h[0]:
                self.find("unlock-wrong-lock", s, i, "unlock of a lock that is not held")
                return [s]
            if s.ts.get("ws"):
                self.find("wait-state-leak", s, i, "the lock is released while the wait state is still registered")
            s.ts.pop("held")
            s.ts.pop("olk", None)
            s.mem.pop(self.shared, None)
            s.note(i, "unlock")
            return [s]
        if f == "allocate_wait_state":
            self.need_ws(s, i, f, args)
            reg, off = e.resolve(args[1])
            if reg != self.shared or off != 0:
                self.find("wrong-wait-address", s, i, "the wait state is registered for an address that is not the object's")
            if s.ts.get("ws"):
                self.find("wait-state-leak", s, i, "a second wait state is registered")
            w = T.S(64, ("ws", i.idx))
            s.ts["ws"] = w
            s.env[i] = w
            s.note(i, f)
            return [s]
        if f == "free_wait_state":
            self.need_ws(s, i, f, args)
            if s.ts.get("ws") != args[1]:
                self.find("wait-state-mismatch", s, i, "free_wait_state of a wait state that is not registered")
            s.ts.pop("ws", None)
            s.note(i, f)
            return [s]
        if f in ("wait", "wait_until", "wait_for"):
            what = "lock_pool::" + f
            ok = self.need_ws(s, i, f, args)
            if s.ts.get("ws") != args[1]:
                self.find("wait-state-mismatch", s, i, "%s with a wait state that is not registered for this wait" % what)
            self.before_block(e, s, i, what, self.lockfree)
            self.blocks.add(("pool", h[2] if h else None))
            if f == "wait":
                if self.case.op != "wait":
                    self.find("unbounded-block", s, i, "a timed wait blocks without a timeout")
                self.slept(e, s, i, what)
                return [s]
            if self.case.op == "wait":
                raise Incomplete("timed block in an untimed wait")
            if f == "wait_until":
                if not T.isc(args[2]):
                    raise Incomplete("clock id")
                tot = self.timespec(e, s, i, args[3], what)
                self.absolute_ok(e, s, i, tot, args[2][2], what)
                evid = True
            else:
                self.remaining_ok(e, s, i, args[2], what)
                now = s.ts.get("now")
                evid = bool(now and now[0] in MONOTONIC)
            out = []
            w = llvm_width(i)
            for to in (True, False):
                s2 = s.copy()
                self.slept(e, s2, i, what + (": timed out" if to else ": woken"))
                if to and evid:
                    s2.ts["ev"] = True
                s2.env[i] = T.C(w, int(to))
                out.append(s2)
            return out
        if f in ("notify_one", "notify_all"):
            self.need_ws(s, i, f, args)
            reg, off = e.resolve(args[1])
            if reg != self.shared or off != 0:
                self.find("wrong-notify-address", s, i, "%s is given an address that is not the object's" % f)
            s.ts["ntf"] = s.ts.get("ntf", ()) + (("pool", h[2] if h else None, f),)
            s.note(i, f)
            return [s]
        raise Incomplete("lock_pool::%s in a waiting operation" % f)

    def poll(self, e, s, i, name):
        self.before_block(e, s, i, name, False)
        if s.ts.get("held"):
            self.find("sleep-with-lock", s, i, "%s while an internal lock is held" % name)
        self.blocks.add(("poll", None))
        if self.case.op in ("wait_until", "wait_for"):
            self.not_expired(e, s, i, name)
        self.slept(e, s, i, name)

    def not_expired(self, e, s, i, what):
        now = s.ts.get("now")
        if not s.ts.get("fresh") or not now:
            self.find("timeout-not-recomputed", s, i, "%s without having read the clock since the thread last slept" % what)
            return
        ds = self.deadlines(s, now[0])
        for d in ds:
            ok, n, cex = sampled(s, lambda E: E(now[1]) < E(d), (now[1], d), 'lt', self.lim)
            self.sampled += n
            if ok:
                return
        self.find("block-after-deadline", s, i, "%s although the deadline may have been reached already" % what)

    def on_pause(self, e, s, i):
        if s.ts.get("np", 0) > 64:
            self.find("unbounded-spin", s, i, "more than 64 pauses without looking at the object%s" % (" and the clock" if self.case.op in ("wait_until", "wait_for") else ""))
            return []
        s = s.copy()
        s.rename(lambda n: n in self.oldnames)
        if not (s.ts.get("held") and not self.lockfree):
            s.ts.pop("obs", None)
        s.ts["np"] = s.ts.get("np", 0) + 1
        self.blocks.add(("poll", None))
        return [s]

    def observe(self, e, s, i, regs=None):
        if self.case.op == "wait":
            s.ts.pop("np", None)
        return OpDomain.observe(self, e, s, i, regs)

    def syscall(self, e, s, i, args):
        if not T.isc(args[0]) or args[0][2] != 202:
            raise Incomplete("system call %s" % (args[0],))
        if not T.isc(args[2]):
            raise Incomplete("futex operation")
        op = args[2][2]
        cmd, private, rt = op & 0x7f, bool(op & 128), bool(op & 256)
        s = s.copy()
        reg, off = e.resolve(args[1])
        c = self.case
        if private and c.kind in IPC:
            self.find("ipc-private-futex", s, i, "inter-process operation uses a process-private futex")
        if reg != self.shared or off != 0:
            self.find("wrong-futex-address", s, i, "the futex address is not the object's")
        if cmd == 1:
            n = T.trunc(args[3], 32) if args[3][1] > 32 else args[3]
            s.ts["ntf"] = s.ts.get("ntf", ()) + (("futex", private, n[2] if T.isc(n) else None),)
            s.env[i] = T.S(64, ("woken", i.idx))
            s.note(i, "futex wake")
            return [s]
        if cmd not in (0, 9):
            raise Incomplete("futex command %d" % cmd)
        what = "futex wait"
        self.before_block(e, s, i, what, False)
        self.blocks.add(("futex", private))
        if s.ts.get("held"):
            self.find("sleep-with-lock", s, i, "futex wait while an internal lock is held")
        val = T.trunc(args[3], 32) if args[3][1] > 32 else args[3]
        want = T.trunc(effects.pad(self.V, 32), 32)
        r = effects.same(val, want, s)
        if self.size != 4 or r is False:
            self.find("futex-wrong-expected", s, i, "the value the kernel compares with is %s, must be the value waited on" % T.show(val))
        elif r is None:
            raise Incomplete("futex expected value")
        timed = not (T.isc(args[4]) and args[4][2] == 0)
        if cmd == 9:
            m = T.trunc(args[6], 32) if args[6][1] > 32 else args[6]
            if not (T.isc(m) and m[2] == 0xffffffff):
                self.find("futex-bitset", s, i, "FUTEX_WAIT_BITSET with a mask that not every wake matches")
        if not timed:
            if c.op != "wait":
                self.find("unbounded-block", s, i, "a timed wait blocks without a timeout")
        else:
            tot = self.timespec(e, s, i, args[4], what)
            if cmd == 0:
                self.remaining_ok(e, s, i, tot, what)
            else:
                self.absolute_ok(e, s, i, tot, 0 if rt else 1, what)
        out = []
        now = s.ts.get("now")
        for err in [0, E_AGAIN, E_INTR] + ([E_TIMEDOUT] if timed else []) + ([E_NOSYS] if cmd == 9 and not s.ts.get("slept") else []):
            s2 = s.copy()
            if err == E_NOSYS:
                s2.rename(lambda n: n in self.oldnames)
                s2.ts.pop("obs", None)
                s2.note(i, "futex wait: ENOSYS")
            else:
                self.slept(e, s2, i, what + {0: ": woken", E_AGAIN: ": value changed", E_INTR: ": interrupted", E_TIMEDOUT: ": timed out"}[err])
            if err == E_TIMEDOUT and (cmd == 9 or now and now[0] in MONOTONIC):
                s2.ts["ev"] = True
            if err:
                s2.mem[("ERRNO",)] = ((0, 4, T.C(32, err)),)
            s2.env[i] = T.C(64, (1 << 64) - 1 if err else 0)
            out.append(s2)
        return out

    def on_call(self, e, s, i, name, args):
        if name and name.startswith("llvm.x86.sse2.pause"):
            return self.on_pause(e, s, i)
        if name == "__clang_call_terminate" or name and short(name) == "std::terminate()":
            self.find("exception-terminates", s, i, "an exception thrown by the user's clock ends the program instead of reaching the caller")
            return []
        if name in ("__cxa_begin_catch", "__cxa_end_catch"):
            s = s.copy()
            s.env[i] = T.S(64, ("exc", i.idx))
            return [s]
        return OpDomain.on_call(self, e, s, i, name, args)

    def follow_unwind(self, e, s, i):
        from .llvm import callee_name
        n = callee_name(i)
        return n == "verif_now_thr"

    def on_unwind(self, e, s, i):
        self.unwinds += 1
        if s.ts.get("ws"):
            self.find("wait-state-leak", s, i, "exception from the user's clock leaves with the wait state registered")
        if s.ts.get("held"):
            self.find("lock-not-released", s, i, "exception from the user's clock leaves with the internal lock held")

    def on_return(self, e, s, rv, i):
        if s.ts.get("ws"):
            self.find("wait-state-leak", s, i, "return with the wait state still registered")
        if s.ts.get("held"):
            self.find("lock-not-released", s, i, "return with the internal lock still held")
        self.finals.append((s, rv, i))


def llvm_width(i):
    from .engine import tybits
    return tybits(i.ty)


def lock_free(cfg, ty, kind):
    if kind in ("flag", "ipcflag"):
        return cfg not in ("fb", "gccfb")
    return opcheck.lock_free(cfg, ty, {"cref": "ref"}.get(kind, kind))


def supported(cfg, ty, kind):
    if opcheck.t_padded(ty) and cfg not in opcheck.CLEARS_PADDING:
        return False
    if kind in IPC:
        return lock_free(cfg, ty, kind)
    return True


def analyse(c, fn, cfg):
    t = TYPES[c.ty]
    k = {"cref": "ref"}.get(c.kind, c.kind)
    flag = c.kind in ("flag", "ipcflag")
    size = 4 if flag else effects.storage_size(c.ty, k)
    W = 8 * size
    if t.cat == "bool":
        old = T.zext(T.S(1, "OLD"), W)
    elif t.vbits < 8 * t.size:
        old = T.zext(T.S(t.vbits, "OLD"), W)
    else:
        old = effects.pad(effects.value_sym(t, "OLD", True), W)
    dm = WaitDomain(effects.shared_region(k), size, old, cfg in opcheck.PLAIN, c, lock_free(cfg, c.ty, c.kind))
    e = Engine(fn, dm)
    e.MAXSTATES = 20000
    st = State()
    dm.V = effects.value_sym(t, "V", True)
    a1, a4 = ("P", T.S(64, ("arg", 1))), ("P", T.S(64, ("arg", 4)))
    effects.seg(st, a1, t, effects.value_sym(t, "V"), "V")
    dm.tp = T.S(64, "TP")
    dm.dur = T.S(64, "DUR")
    if c.op in ("wait_until", "wait_for"):
        x = dm.tp if c.op == "wait_until" else dm.dur
        st.mem[a4] = ((0, 8, x),)
        if "int" in c.expr and c.op == "wait_for":
            dm.dur = T.trunc(x, 32)
        dm.lim = min(1 << 41, (1 << 61) // (c.unit[0] or 1))
        if c.op == "wait_until" and "seconds" in c.expr:
            # the time point is given in seconds of a nanosecond clock
            dm.tp = T.scale(x, NS)
            c.unit = (1, 1)
    dm.e = e
    e.run(st)
    return dm, e


def judge(c, dm, e):
    """appends findings to dm.findings; -> number of judged returns"""
    t = TYPES[c.ty]
    vb = t.vbits
    a2, a3 = ("P", T.S(64, ("arg", 2))), ("P", T.S(64, ("arg", 3)))
    n = 0
    mask = None
    if t.pads:
        mask = (1 << vb) - 1
        for o, k in t.pads:
            mask &= ~(((1 << (8 * k)) - 1) << (8 * o))

    def val(x):
        x = T.trunc(x, vb) if x[1] > vb else x
        return T.and_(x, T.C(vb, mask)) if mask is not None else x

    def bad(rule, msg, s, i):
        loc = ()
        for txt, l in reversed(s.trail):
            loc = l
            break
        dm.findings.append(Finding(rule, msg, loc or i.loc, s.trail))
    if not dm.finals:
        dm.findings.append(Finding("no-return", "no path through the operation returns", ()))
    for s, rv, i in dm.finals:
        n += 1
        if s.ts.get("lin"):
            bad("wait-modifies", "a waiting or notifying operation modifies the object", s, i)
        if c.op.startswith("notify"):
            continue
        got = e.mem_read(s.copy(), a2, 0, vb // 8)
        got = val(got)
        opts = [(s, False)]
        if c.op != "wait":
            to = e.mem_read(s.copy(), a3, 0, 1)
            z = T.icmp("eq", to, T.C(8, 0))
            opts = []
            for w in (False, True):
                s2 = s.copy()
                if s2.assume(z, not w):
                    opts.append((s2, w))
        for s2, to in opts:
            o = s2.ts.get("obs")
            if o is None:
                bad("stale-result", "%s with a value that was not re-read after the thread last slept" % ("reports a timeout" if to else "returns"), s2, i)
                continue
            if o[1] == "plain":
                bad("stale-result", "the returned value was read non-atomically", s2, i)
            r = effects.same(got, val(o[0]), s2)
            if r is not True:
                bad("wrong-result", "returned value is %s, must be the value observed last (%s)" % (T.show(got), T.show(val(o[0]))), s2, i)
                continue
            eq = s2.decide(T.icmp("eq", o[0], effects.pad(dm.V, o[0][1])))
            if eq is None:
                r = effects.same(o[0], effects.pad(dm.V, o[0][1]), s2)
                eq = True if r is True else None
            want = cases.BITS[c.so] & 5
            if want & ~o[2]:
                bad("order-too-weak", "waits with memory_order_%s but the returned value was read with a weaker order" % c.so, s2, i)
            if not to:
                if eq is not False:
                    bad("returns-unchanged", "returns (not timed out) on a path where the value may equal the one waited on", s2, i)
                continue
            if eq is not True:
                bad("timeout-with-change", "reports a timeout on a path where the value may differ from the one waited on", s2, i)
            if s2.ts.get("ev"):
                continue
            now = s2.ts.get("now")
            ok = False
            cex = "no clock reading"
            ds = [(now[1], d) for d in dm.deadlines(s2, now[0])] if now and s2.ts.get("fresh") else []
            ts = s2.ts.get("tots")
            for nw, d in ds + [(None, None)]:
                def pred(E):
                    if nw is not None and E(nw) >= E(d):
                        return True
                    if c.op == "wait_until" and CLOCKS[c.clk][3] is not None:
                        # before the clock's epoch
                        return E(dm.tp) < 0 if ts is None else E(ts) < 0
                    return False
                ok, k, cex = sampled(s2, pred, [x for x in (nw, d, (ts or dm.tp) if c.op == "wait_until" else None) if x is not None], ('exp', c.op, c.clk, nw is None), dm.lim)
                dm.sampled += k
                if ok:
                    break
            if ok is not True:
                bad("early-timeout", "reports a timeout on a path that does not establish that the deadline was reached (e.g. %s)" % cex, s2, i)
    return n


def one(job):
    cfg, ty, kind, mode, ops = job
    fl, pre = build.CONFIGS[cfg]
    cs = gen(ty, kind, mode, seq=hash_seq(ty, kind), ops=ops)
    r = {"job": job, "cases": 0, "paths": 0, "states": 0, "sampled": 0, "exact": 0, "unwinds": 0, "findings": [], "incomplete": [], "locks": set(), "group": [], "blocks": set(),
         "lockfree": lock_free(cfg, ty, kind), "asm": []}
    try:
        bc = build.compile_ir(unit(cs, pre), fl, name="w_%s_%s_%s" % (cfg, kind, ty))
    except build.BuildError as x:
        r["builderror"] = x.text[:4000]
        return r
    m = llvm.Module(bc)
    waits, notifies = [], []
    for c in cs:
        fn = m.functions.get(c.fn)
        title = "[%s] %s" % (cfg, c.title())
        if fn is None or fn.decl:
            r["incomplete"].append((title, "wrapper vanished", ""))
            continue
        try:
            dm, e = analyse(c, fn, cfg)
            r["paths"] += judge(c, dm, e)
        except Incomplete as x:
            r["incomplete"].append((title, str(x), ""))
            continue
        r["cases"] += 1
        r["states"] += e.nstates
        r["sampled"] += dm.sampled
        r["exact"] += dm.exact
        r["unwinds"] += dm.unwinds
        r["locks"] |= {(c.op,) + l for l in dm.locks}
        r["blocks"] |= {b[0] for b in dm.blocks}
        for f in dm.findings:
            r["findings"].append((c.op, title, f.rule, f.msg, f.loc, tuple((t[0], t[1]) for t in f.trail)))
        for rule, loc, msg in e.asm_findings:
            r["findings"].append((c.op, title, rule, msg, loc, ()))
        if c.clk == "thr" and not dm.unwinds and dm.lockfree is not None and any(b[0] != "none" for b in dm.blocks):
            r["findings"].append((c.op, title, "exception-swallowed", "no path lets an exception thrown by the user's clock reach the caller", (), ()))
        if c.op.startswith("notify"):
            for s, rv, i in dm.finals:
                notifies.append((c.op, title, s.ts.get("ntf", ()), i.loc))
        else:
            waits.append((c.op, title, dm.blocks))
    # every way the waits of this object kind block must be reached by every path of the notifies
    if kind != "cref":
        mech = set()
        for op, title, bl in waits:
            mech |= bl
        for op, title, ev, loc in notifies:
            for b in mech:
                if b[0] == "poll":
                    continue
                if b[0] == "pool":
                    ok = any(x[0] == "pool" and x[1] == b[1] and (op == "notify_one" or x[2] == "notify_all") for x in ev)
                else:
                    ok = any(x[0] == "futex" and x[1] == b[1] and x[2] is not None and (x[2] >= 1 if op == "notify_one" else x[2] >= 0x7fffffff) and x[2] < 1 << 31 for x in ev)
                if not ok:
                    r["findings"].append((op, title, "notify-missed", "a path through %s does not wake threads blocked by %s (%s)" % (op, b[0], "events: %s" % (ev,)), loc, ()))
    return r


def hash_seq(ty, kind):
    return sum(map(ord, ty + kind))


def run(jobs):
    build.source_hash()
    with mp.Pool(build.JOBS) as p:
        return p.map(one, jobs, chunksize=1)
