"""Waiting and notifying operations (sa/waitcheck.py): A10, A11."""
from . import check
from .. import waitcheck as W, cases, build
from ..report import loc_text, Broken
from .ops import ALLCFG, NATIVE, ALL, COMMON_ASSUME

KINDS = ["atomic", "ref", "ipc", "ipcref"]
NOTIFY = ("notify_one", "notify_all")
TIMED = ("wait_until", "wait_for")

LOCKING = {"nested-lock", "unlock-wrong-lock", "sleep-with-lock", "lock-not-released", "wait-state-leak"}
THROWING = {"exception-terminates", "exception-swallowed"}
IPC = {"ipc-per-process-state", "ipc-private-futex"}
# what each property takes from the analysis of a waiting / notifying operation
RULES = {
    "A10": lambda op, rule, kind: rule not in THROWING and (op == "wait" or op in NOTIFY or rule == "notify-missed"),
    "A11": lambda op, rule, kind: rule not in THROWING and (op in TIMED or rule == "notify-missed"),
    "A15": lambda op, rule, kind: kind in W.IPC and (rule in IPC or rule == "notify-missed"),
    "A21": lambda op, rule, kind: rule in THROWING or op in TIMED and rule in ("lock-not-released", "wait-state-leak"),
    "A23": lambda op, rule, kind: kind in ("flag", "ipcflag"),
    "A26": lambda op, rule, kind: rule in LOCKING,
}


def jobs(cfgs, kinds, types, mode="one", ops=None):
    out = []
    for c in cfgs:
        for k in kinds:
            for t in (["bool"] if k in ("flag", "ipcflag") else types):
                if W.supported(c, t, k):
                    out.append((c, t, k, mode, ops))
    return out


def drive(r, jl, prop=None):
    rel = RULES[prop or r.prop]
    R = W.run(jl)
    for res in R:
        cfg, ty, kind, mode, ops = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        if res["cases"] == 0 and not res["incomplete"]:
            raise Broken("no waiting operation instantiated for %s" % (res["job"],))
        r.count("waiting/notifying operations analysed", res["cases"])
        r.count("returning paths judged", res["paths"])
        r.count("abstract states", res["states"])
        r.count("exception exits judged", res["unwinds"])
        r.count("deadline computations equal to the specification as terms", res["exact"])
        r.count("corner valuations evaluated for the others", res["sampled"])
        for b in res["blocks"]:
            r.count("instantiations blocking by " + b)
        r.ob(res["paths"] + res["unwinds"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for op, title, rule, msg, loc, trail in res["findings"]:
            if rel(op, rule, kind):
                r.finding(rule, loc_text(loc), "%s: %s" % (title, msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in trail])
    return R


def samples(r, jl):
    for c, t, k, mode, ops in jl[:: max(1, len(jl) // 8)]:
        cs = W.gen(t, k, mode, W.hash_seq(t, k), ops)
        x = cs[len(cs) // 2]
        r.sample("[%s] %s : %s" % (c, x.title(), x.expr))


MODEL = ("futex, nanosleep, clock and lock-pool functions are modelled by their documented contracts, spurious wake-ups, interruptions, time-outs and ENOSYS included "
         "(the lock-pool functions themselves are A09 and A12)")


@check("A10")
def a10(r):
    r.rule("wait", "typestate over every path of every instantiated wait: it blocks only where the last reading of the object (made after the last sleep, and inside the lock for pool waits) equals "
           "the value waited on, at the object's own address, with the kernel comparing that value; it returns the last value read, on paths that establish it differs, read with the requested order")
    r.rule("notify", "every path of notify_one / notify_all wakes through every mechanism (pool, futex) that any wait of that object kind blocks on")
    r.assumptions += COMMON_ASSUME + [MODEL]
    q = r.tier == "quick"
    ops = ("wait",) + NOTIFY
    jl = jobs(["def", "fb", "snb", "arch", "gcc", "noflag"] if q else ALLCFG, KINDS, ALL, "one" if q else "all")
    jl = [(c, t, k, m, ("wait",) + NOTIFY) for c, t, k, m, _ in jl]
    if q:
        # which mechanisms the timed waits block on, so that notify is judged against them too
        small = ["s8", "u32", "u64", "m12", "u128"]
        jl = [j if j[1] not in small or j[0] not in ("def", "fb") else j[:4] + (None,) for j in jl]
    else:
        jl = [j[:4] + (None,) if j[0] in ("def", "fb") else j for j in jl]
    jl += jobs(["def", "fb"], ["cref"], ALL)
    jl += jobs(["def", "fb"], ["flag", "ipcflag"], ["bool"], ops=ops)
    samples(r, jl)
    drive(r, jl)
    # the lock pool's side of untimed waits and of notifications
    from . import pool
    r.rule("pool", "lock_pool::wait / notify_one / notify_all as under A12")
    pool.drive(r, pool.quick_cfgs(r), lambda p, fn, f: p == "A12" and not timed_function(fn))


def timed_function(fn):
    return "wait_for" in fn or "wait_until" in fn


REPR = ["u32", "s8", "u64", "u128", "bool", "e32", "f32", "f80", "pi", "m3", "m4", "m12", "m16", "m24", "u16"]


@check("A11")
def a11(r):
    r.rule("timed wait", "as A10's wait rule; additionally every blocking call's timeout is the deadline (absolute, on the deadline's clock) or the time left to it, rounded up and computed from a clock "
           "reading newer than the last sleep (relative), is positive, and wait_for's deadline comes from one reading of a steady clock made before the first sleep; a timeout is reported only where the path "
           "establishes that the deadline passed and the last reading equals the given value")
    r.assumptions += COMMON_ASSUME + [MODEL, "deadlines and durations are representable in nanoseconds",
                                      "arithmetic on times that is not syntactically equal to the specification is compared on corner valuations of its symbols"]
    q = r.tier == "quick"
    if q:
        jl = jobs(["def", "fb"], KINDS, ALL) + jobs(["snb", "arch", "gcc", "gccb", "gccfb"], KINDS, REPR + ["q12"])
    else:
        jl = jobs(ALLCFG, KINDS, ALL) + jobs(["def", "fb"], KINDS, REPR, "all")
    jl += jobs(["def", "fb"], ["flag", "ipcflag"], ["bool"])
    samples(r, jl)
    drive(r, jl)
    from . import pool
    r.rule("pool", "lock_pool::wait_for / wait_until / notify_one / notify_all as under A12")
    pool.drive(r, pool.quick_cfgs(r), lambda p, fn, f: p == "A12" and (timed_function(fn) or "notify" in fn))


WAITTECH = "typestate analysis of every path of each instantiated wait/notify (LLVM IR, symbolic time), system calls and lock pool as contracts"
MANIFEST = {
    "A10": (WAITTECH, "all paths through waits and notifies of every type, kind and back-end; the pool's own protocol is A12"),
    "A11": (WAITTECH, "nine clocks incl. posix-integrated, coarse, fine and throwing ones; time arithmetic compared as terms, otherwise on corner valuations"),
}


COMPARE = {"block-on-changed-value", "returns-unchanged", "timeout-with-change", "futex-wrong-expected"}


def padded_waits(r):
    """A18's share: waits on padded types, compared with the same waits on types without padding"""
    q = r.tier == "quick"
    cfgs = ["def", "fb", "gcc"] if q else ALLCFG
    plain = ["u8", "u32", "u64", "m16", "m24"]
    # (value representation wider than the type; structures with padding only in configurations that can clear it)
    padded = ["m3", "m5", "b6", "m12", "f80"] + cases.PADDED
    ops = ("wait", "wait_for", "wait_until")
    jl = jobs(cfgs, KINDS, padded, ops=ops)
    base = jobs(cfgs, KINDS, plain, ops=ops)
    general = set()
    out = []
    for res in W.run(jl + base):
        cfg, ty, kind, mode, o = res["job"]
        if "builderror" in res:
            raise build.BuildError("%s/%s/%s" % (cfg, kind, ty), res["builderror"])
        if res["cases"] == 0 and not res["incomplete"]:
            raise Broken("no waiting operation instantiated for %s" % (res["job"],))
        if ty not in plain:
            r.count("waits on padded types analysed", res["cases"])
            r.ob(res["paths"])
            for x in res["incomplete"]:
                r.undecided.append(("incomplete", x[0], x[1]))
        for op, title, rule, msg, loc, trail in res["findings"]:
            if rule in COMPARE:
                if ty in plain:
                    general.add((op, rule))
                else:
                    out.append((op, title, rule, msg, loc, trail))
    for op, title, rule, msg, loc, trail in out:
        if (op, rule) not in general:
            r.finding("wait-" + rule, loc_text(loc), "%s: %s" % (title, msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in trail])
