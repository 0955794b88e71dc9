"""The internal lock pool (src/lock_pool.cpp): A08, A09, A12, A13, A26."""
import multiprocessing as mp
from . import check
from .. import poolrun, opcheck, waitcheck as W, build, terms as T
from ..report import loc_text, Broken
from ..engine import Incomplete
from . import ops as O, wait as WT

# configurations whose pool is built on futex
FUTEX = ["def", "snb", "gcc", "gccb", "arch", "noflag", "gccarch"]
HELD_RULES = {"not-released", "lock-not-released", "nested-lock", "sleep-with-lock", "release-not-held", "lock-not-held"}


def analyse(cfg):
    try:
        res = poolrun.analyse(cfg)
    except build.BuildError as x:
        return cfg, None, ("build", x.what, x.text)
    except Broken as x:
        return cfg, None, ("broken", str(x), "")
    return cfg, (res.findings, res.incomplete, res.counts, res.obl, res.extent, res.lock_index, res.roles), None


def run(cfgs):
    build.source_hash()
    with mp.Pool(min(build.JOBS, len(cfgs))) as p:
        return p.map(analyse, cfgs, chunksize=1)


def drive(r, cfgs, sel=None):
    sel = sel or (lambda p, fn, f: p == r.prop)
    out = []
    broken = None
    for cfg, res, err in run(cfgs):
        if err and err[0] == "build":
            raise build.BuildError(err[1], err[2])
        if err:
            broken = broken or "[%s] %s" % (cfg, err[1])
            continue
        findings, inc, counts, obl, extent, index, roles = res
        for k, n in counts.items():
            r.count(k, n)
        r.ob(obl)
        r.sample("[%s] layout found: %s" % (cfg, roles))
        for fn, msg in inc:
            r.undecided.append(("incomplete", "lock_pool::" + fn, "[%s] %s" % (cfg, msg)))
        for p, fn, f in findings:
            if sel(p, fn, f):
                r.finding(f.rule, loc_text(f.loc), "[%s] %s: %s" % (cfg, fn, f.msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in f.trail])
        out.append((cfg, extent, index))
    if broken and not r.findings:
        raise Broken(broken)
    return out


MODEL = ("the entry points of src/lock_pool.cpp are analysed with the fields' roles derived from the code; futex, clock, memory and C library calls are modelled by their documented contracts: spurious "
         "wake-ups, interruptions, time-outs, failed allocations and every value other threads may leave in the words are included")


def quick_cfgs(r):
    return ["def", "gcc", "arch"] if r.tier == "quick" else FUTEX


@check("A09")
def a09(r):
    r.rule("mutex-step", "every update of the mutex word, on every path and for every value other threads may have left there, is one of: take a free lock, mark a held lock contended, release the lock held "
           "(with the contended mark either kept or followed by a wake-up), clear the mark after a wake-up found no sleeper, which a change in the rest of the word must confirm")
    r.rule("ordering", "acquisitions are at least acquire and releases at least release, directly or by fence")
    r.rule("progress", "a thread sleeps on the word only while it holds 'locked and contended' with that same expected value; a release that saw the mark wakes a sleeper")
    r.assumptions += [MODEL]
    drive(r, quick_cfgs(r))


@check("A12")
def a12(r):
    r.rule("wait", "the notification word is read and the waiter counted before the lock is released; the thread sleeps on that word with that value, repeats until the word differs or the deadline passed, and "
           "holds the lock again on return; deadlines and clocks as in A11")
    r.rule("notify", "under the lock the notification word changes before sleepers are woken or moved to the mutex, at least one (notify_one) or all (notify_all) whenever waiters are counted; moved sleepers "
           "leave the mutex marked contended")
    r.assumptions += [MODEL]
    drive(r, quick_cfgs(r))


@check("A13")
def a13(r):
    r.rule("table", "symbolic table of arbitrary size and capacity: every access lies in the storage, nothing freed or null is used, allocate finds the entry of the address or appends a properly initialised one, "
           "growth keeps every entry, release drops one reference and removes exactly the entry whose count becomes zero, leaving all others in place (up to the one moved into the hole, whose index is updated)")
    r.rule("memory", "storage is allocated and freed by matching functions, once, under the lock; allocation failure is reported and leaves the table as it was; a wait without a wait state is held to A12 and A26 by polling")
    r.assumptions += [MODEL, "fewer than 2^59 simultaneous waited-on objects per lock"]
    drive(r, quick_cfgs(r))


def lock_terms(r, jl, wl):
    """{(kind family, type): {term: [where]}}"""
    out = {}
    for res in opcheck.run(jl):
        if "builderror" in res:
            raise build.BuildError("%s" % (res["job"],), res["builderror"])
        cfg, ty, kind, mode, ops = res["job"]
        r.count("operations analysed", res["cases"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for ty_, kind_, op, f, t in res["locks"]:
            out.setdefault(("ref" if kind in ("ref", "cref") else kind, ty, opcheck.lock_free(cfg, ty, "ref" if kind == "cref" else kind)), {}).setdefault(t, []).append((cfg, kind, op, f))
    for res in W.run(wl):
        if "builderror" in res:
            raise build.BuildError("%s" % (res["job"],), res["builderror"])
        cfg, ty, kind, mode, ops = res["job"]
        r.count("operations analysed", res["cases"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for op, f, t in res["locks"]:
            out.setdefault(("ref" if kind in ("ref", "cref") else kind, ty, opcheck.lock_free(cfg, ty, "ref" if kind == "cref" else kind)), {}).setdefault(t, []).append((cfg, kind, op, f))
    return out


@check("A08")
def a08(r):
    r.rule("hash", "the value each operation passes to the lock functions is, as a term, a function of the object's address alone, and the same term for every operation on the object: all member functions, "
           "waits and notifications, references and references to const, build configurations")
    r.rule("index", "the lock functions turn that value into an address inside the lock table for every value; entries are at least as far apart as the bytes of an entry that the code uses, and aligned; "
           "short and long locking choose the same entry")
    r.assumptions += O.COMMON_ASSUME
    q = r.tier == "quick"
    types = ["s8", "u32", "u64", "bool", "f32", "pi", "m3", "m12", "m16", "m24", "u128", "e32", "f80", "f64"] if q else O.ALL
    cfgs = ["fb", "def", "snb"] if q else O.ALLCFG
    jl = [j for j in O.jobs(cfgs, ["atomic", "ref"], types, "one") if not opcheck.lock_free(j[0], j[1], j[2])]
    wl = WT.jobs(cfgs, ["atomic", "ref", "cref"], types)
    terms = lock_terms(r, jl, wl)
    if not terms:
        raise Broken("no operation takes a lock")
    for (fam, ty, lf), ts in sorted(terms.items()):
        r.count("object kinds and types whose lock is compared")
        r.ob(len(ts))
        addr = {("arg", 0)} if fam != "ref" else None
        for t, where in ts.items():
            syms = set(T.symbols(t))
            bad = [n for n in syms if not (n == ("arg", 0) if addr else n[0] == "mem" and n[1] == ("P", T.S(64, ("arg", 0))) and n[2] == 0)]
            if bad or not syms:
                r.finding("lock-choice", "%s<%s>" % (fam, ty), "the lock chosen by %s is not a function of the object's address alone: %s" % (where[0], T.show(t)))
        if len(ts) > 1:
            r.finding("lock-choice", "%s<%s>" % (fam, ty), "operations on one object choose different locks: " + "; ".join(
                "%s: %s" % (", ".join("%s/%s/%s" % (w[0], w[1], w[2]) for w in sorted(set(where))[:3]), T.show(t)) for t, where in ts.items()))
        r.sample("%s<%s>: %s (%d uses)" % (fam, ty, T.show(next(iter(ts))), sum(len(x) for x in ts.values())))
    most = 0
    for cfg, extent, index in drive(r, quick_cfgs(r)):
        most = max(most, extent)
        for name, off, size, stride, ext in index:
            r.sample("[%s] %s: entry at byte %s of a table of %d bytes, entries %d apart, %d bytes used" % (cfg, name, off, size, stride, ext))
    # other table sizes a user may choose for the library
    for log2 in (1, 9) if q else (1, 2, 4, 7, 9, 10, 12):
        res = poolrun.analyse_size("def", log2, most)
        r.ob(res.obl)
        r.count("table sizes analysed")
        for fn, msg in res.incomplete:
            r.undecided.append(("incomplete", "lock_pool::" + fn, "[2^%d locks] %s" % (log2, msg)))
        for p, fn, f in res.findings:
            if p == "A08":
                r.finding(f.rule, loc_text(f.loc), "[table of 2^%d locks] %s: %s" % (log2, fn, f.msg), ["%s  %s" % (t[0], loc_text(t[1])) for t in f.trail])


@check("A26")
def a26(r):
    r.rule("held", "lock-held typestate on every path of every operation, wait and notification, and of the lock pool itself: never a second acquisition, never a sleep with the lock held, released on every return "
           "and on every exception that can leave (a user clock's)")
    r.assumptions += O.COMMON_ASSUME + [MODEL]
    q = r.tier == "quick"
    jl = [j for j in O.jobs(["fb", "def"] if q else ["fb", "gccfb", "def", "snb"], ["atomic", "ref"], WT.REPR if q else O.ALL, "one") if not opcheck.lock_free(j[0], j[1], j[2])]
    for res in opcheck.run(jl):
        if "builderror" in res:
            raise build.BuildError("%s" % (res["job"],), res["builderror"])
        r.count("operations analysed", res["cases"])
        r.count("returning paths judged", res["paths"])
        r.ob(res["paths"])
        for x in res["incomplete"]:
            r.undecided.append(("incomplete", x[0], x[1]))
        for f in res["findings"]:
            if f[4] in WT.LOCKING:
                r.finding(f[4], loc_text(f[6]), "%s: %s" % (f[3], f[5]), ["%s  %s" % (t[0], loc_text(t[1])) for t in f[7]])
    wl = WT.jobs(["def", "fb"] if q else O.ALLCFG, ["atomic", "ref", "cref"], WT.REPR if q else O.ALL)
    wl += WT.jobs(["fb"], ["flag"], ["bool"])
    WT.drive(r, wl)
    drive(r, quick_cfgs(r), lambda p, fn, f: p == "A26" or f.rule in HELD_RULES)


TECH = "abstract interpretation of lock_pool.cpp's LLVM IR: typestate of the lock and notification words with interference, relational value terms"
MANIFEST = {
    "A08": ("value terms of the lock selection of every instantiated operation compared; range and stride of the selected table entry by known-bits analysis", "object address symbolic"),
    "A09": (TECH, "futex back-end; every interleaving is covered by letting the words take any value other threads can produce between two accesses"),
    "A12": (TECH, "futex back-end"),
    "A13": (TECH + ", table of symbolic size in a linear-arithmetic domain", "table size, capacity and contents symbolic; unbounded number of waiters"),
    "A26": ("lock-held typestate over every path of operations, waits and lock pool functions", "includes exceptional exits"),
}
