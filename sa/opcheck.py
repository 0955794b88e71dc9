"""Runs the operation analysis over families of (configuration, type, object
kind) in parallel and collects obligations and findings per aspect."""
import multiprocessing as mp, collections
from . import build, cases, llvm, effects
from .engine import Incomplete

PLAIN = {"arch", "noflag", "gccarch", "gccold", "sync"} | set(build.TARGETS)


CLEARS_PADDING = {"gcc", "gccb", "gccarch", "gccfb", "gccold", "port", "sync"}
# configurations with a 16-byte lock-free backend
HAS16 = {"snb", "gcc", "arch", "noflag", "gccarch", "gccold", "sync", "a64", "a64lse"}


# no byte and halfword operations: atomics of 1 and 2 bytes live in a word
WIDE = {"ppc7": 4, "arm6": 4, "sparc": 4}
# types whose size differs from the table on 32-bit processors
LONG32 = {"s64", "u64"}
PTR32 = {"pv", "pcv", "pf"}


def t_padded(ty):
    return bool(cases.TYPES[ty].pads)


def supported(cfg, ty, kind):
    """operations on objects that are not lock-free do not compile for inter-process atomics (see the compile-fail
    witnesses), so there is nothing to analyse"""
    if build.bits32(cfg) and (kind not in ("atomic", "flag") or ty in LONG32 or cases.TYPES[ty].cat == "ptr" or ty in PTR32):
        return False
    if cfg in WIDE and (kind != "atomic" and cases.TYPES[ty].size < 4 or ty in ("s16", "e16") or cfg == "sparc" and ty == "s8"):
        return False    # s8 and u16 stand for them
    if cfg == "sparc" and cases.TYPES[ty].cat == "struct" and cases.TYPES[ty].size not in (4, 8):
        return False    # stored in the high bytes of a word on this big-endian processor; not modelled
    if cfg == "arm6" and cases.TYPES[ty].size > 4:
        return False
    if kind in ("ipc", "ipcref", "ipcflag"):
        if cfg in ("fb", "gccfb"):
            return False
        return lock_free(cfg, ty, kind)
    return True


def lock_free(cfg, ty, kind):
    n = cases.TYPES[ty].size
    if cfg in ("fb", "gccfb"):
        return False
    if kind in ("ref", "ipcref") and n & (n - 1):
        return False
    if n <= 8:
        return True
    return n <= 16 and cfg in HAS16


def one(job):
    cfg, ty, kind, mode, ops = job
    fl, pre = build.CONFIGS[cfg]
    cs = cases.gen(ty, kind, mode, ops=ops)
    r = {"job": job, "lockfree": lock_free(cfg, ty, kind), "nlocked": 0, "cases": 0, "paths": 0, "states": 0, "findings": [], "incomplete": [], "asm": [], "fns": 0, "locks": set(), "kinds": collections.Counter(), "ops": set()}
    if not cs or (t_padded(ty) and cfg not in CLEARS_PADDING) or not supported(cfg, ty, kind):
        return r
    try:
        bc = build.compile_ir(cases.unit(cs, pre), fl, name="%s_%s_%s" % (cfg, kind, ty))
    except build.BuildError as x:
        r["builderror"] = x.text[:4000]
        return r
    m = llvm.Module(bc)
    for c in cs:
        fn = m.functions.get(c.fn)
        title = "[%s] %s" % (cfg, c.title())
        if fn is None or fn.decl:
            r["incomplete"].append((title, "wrapper vanished", ""))
            continue
        try:
            dm, e = effects.analyse(c, fn, cfg in PLAIN, build.arch(cfg), WIDE.get(cfg, 0) if kind == "atomic" else 0)
        except Incomplete as x:
            r["incomplete"].append((title, str(x), ""))
            continue
        v = effects.judge(c, dm, e)
        r["cases"] += 1
        r["ops"].add((c.mode, c.op))
        r["paths"] += v.paths
        r["states"] += e.nstates
        if dm.locks:
            r["nlocked"] += 1
        if bool(dm.locks) == r["lockfree"]:
            msg = "operation on a lock-free object goes through the lock pool, so it is not atomic with respect to the native operations" if dm.locks else \
                "operation on an object without native atomic operations does not take its lock"
            loc = next((t[1] for s_, _, _ in dm.finals for t in s_.trail if t[1]), ())
            r["findings"].append(("atomic", c.ty, c.op, title, "mixed-locking", msg, loc, (), c.mode, False))
        for k in dm.access_kinds:
            r["kinds"][k] += 1
        for asp in ("value", "atomic", "order", "pad", "undecided"):
            for f in getattr(v, asp):
                r["findings"].append((asp, c.ty, c.op, title, f.rule, f.msg, f.loc, tuple((t[0], t[1]) for t in f.trail), c.mode, f.stale))
        for rule, loc, msg in e.asm_findings:
            r["findings"].append(("asm", c.ty, c.op, title, rule, msg, loc, (), c.mode, False))
        for (txt, cons), loc in e.asms.items():
            r["asm"].append((txt, cons, loc[0] if loc else None))
        for l in dm.locks:
            r["locks"].add((ty, kind, c.op) + l)
        if dm.unknown_calls:
            r["calls"] = r.get("calls", set()) | dm.unknown_calls
    return r


def run(jobs):
    build.source_hash()
    with mp.Pool(build.JOBS) as p:
        return p.map(one, jobs, chunksize=1)
