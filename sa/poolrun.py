"""Drives the lock pool analysis (poolcheck): finds the roles of the pool's
fields, then judges every entry point of the pool."""
from . import terms as T, build, llvm
from .engine import State, Incomplete
from .domains import kbits, Sizes, lin, lsub, ladd
from .effects import short, Finding
from .poolcheck import *
from .poolcheck import PoolEngine, PoolDomain, Roles, C64, A0, A1, A2, A3, load_module, entry_points, INT_MAX, base_of
from .report import Broken
from .waitcheck import NS


def execute(m, fn, dom, prep=None):
    st = State()
    if dom.entry_held and dom.phase:
        st.ts[("held",)] = ("P", A0)
    e = PoolEngine(fn, dom, m)
    if prep:
        prep(e, st)
    e.run(st)
    return e


# ------------------------------------------------------------------ roles
def discover(m):
    """(Roles, findings)"""
    R = Roles()
    F = []
    ep = entry_points(m)
    for n in ("short_lock", "long_lock", "unlock", "allocate_wait_state", "free_wait_state", "wait", "wait_until", "wait_for", "notify_one", "notify_all"):
        if n not in ep:
            raise Broken("lock pool function %s not found" % n)

    def ph0(name, held=True):
        d = PoolDomain(R, name, held, phase=0)
        e = execute(m, ep[name], d)
        if not d.finals:
            raise Broken("lock pool function %s has no returning path" % name)
        return d

    # the lock bit: clear before, set after, on every path that returns from a lock function
    Ls = {}
    moff = {}
    sleepC = None
    for name in ("long_lock", "short_lock"):
        d = ph0(name, False)
        for w in d.mwaits:
            mm, vv = kbits(w)
            sleepC = mm & vv if sleepC is None else sleepC & mm & vv
        for s, rv, i in d.finals:
            u = s.ts.get(("upd",))
            if u is None:
                F.append(("A09", Finding("no-acquisition", "%s returns on a path that never updates the mutex word" % name, i.loc, s.trail)))
                continue
            reg, off, old, new = u
            m_, v = kbits(new)
            mo, vo = kbits(old)
            got = 0
            for b in range(32):
                k = 1 << b
                if m_ & v & k and (s.decide(T.icmp("eq", T.and_(old, T.C(32, k)), T.C(32, 0))) is True or s.decide(T.icmp("ne", T.and_(old, T.C(32, k)), T.C(32, 0))) is False or mo & ~vo & k):
                    got |= k
            if got:
                Ls[got] = Ls.get(got, 0) + 1
            if rv is not None:
                r2 = PoolEngine(ep[name], d, m).resolve(rv)
                if r2[0] == reg:
                    moff[off - r2[1]] = moff.get(off - r2[1], 0) + 1
    if not Ls or not moff:
        raise Broken("the mutex word of the lock pool could not be identified (lock bits %s, offsets %s)" % (Ls, sorted(moff)))
    R.L = L = max(Ls, key=lambda k: (Ls[k], -k))
    R.mutex = max(moff, key=lambda k: (moff[k], -k))

    # the contention mark: clear in the old word on every path of unlock that wakes nobody
    d = ph0("unlock")
    C = None
    for s, rv, i in d.finals:
        u = s.ts.get(("upd",))
        if s.ts.get(("woke0",)) or u is None:
            continue
        old = u[2]
        got = 0
        for b in range(32):
            k = 1 << b
            if k & L:
                continue
            if s.decide(T.icmp("eq", T.and_(old, T.C(32, k)), T.C(32, 0))) is True or s.decide(T.bit(old, T.C(32, b))) is False:
                got |= k
        C = got if C is None else C & got
    if sleepC is not None:
        sleepC &= ~L
    if C and sleepC and C != sleepC:
        F.append(("A09", Finding("contention-mark", "unlock wakes blocked threads when bits %#x are set, but a thread about to block sets bits %#x" % (C, sleepC), (), ())))
    R.C = C or sleepC or 0

    # the notification word and the number of waiters
    d = ph0("wait")
    conds, counts = set(), set()
    for off, ws in d.cwaits:
        conds.add(off)
        counts.update(w[0] for w in ws if w[2] == 1)
    if len(conds) != 1:
        raise Broken("the notification word could not be identified (%s)" % sorted(conds))
    R.cond = conds.pop()
    counts.discard(R.cond)
    if len(counts) == 1:
        R.count = counts.pop()

    # the table
    cand = {}

    def note(k, v):
        cand.setdefault(k, {}).setdefault(v, 0)
        cand[k][v] += 1
    for name in ("notify_one", "notify_all", "allocate_wait_state"):
        d = ph0(name)
        for b, off, n, i in d.finds:
            nm = b[2]
            if nm[0] == "BUF" and isinstance(nm[1], tuple) and nm[1][0] == "mem":
                note("hdr", nm[1][2])
            if T.isc(off):
                note("pa", off[2])
            if n[0] == "s" and isinstance(n[2], tuple) and n[2][0] == "cell" and T.isc(n[2][2]):
                note("size", n[2][2][2])
        if name[0] == "a":
            allocs = [f[0] for f in d.finals]
        for s, rv, i in d.finals:
            ws = [s.ts.get(("bump",))] + ([rv] if rv is not None else [])
            for w in ws:
                if w is not None and w[0] == "s" and isinstance(w[2], tuple) and w[2][0] == "cell":
                    for c, x in (w[2][2][3] if w[2][2][0] == "lin" else ()):
                        if c == 8 and x[0] == "s" and isinstance(x[2], tuple) and x[2][0] == "cell" and T.isc(x[2][2]):
                            note("cap", x[2][2][2])
    for k in ("hdr", "pa", "size", "cap"):
        v = cand.get(k, {})
        if k == "cap":
            v.pop(R.size, None)
        if not v:
            raise Broken("the %s of the waiter table could not be identified" % k)
        setattr(R, k, max(v, key=lambda x: (v[x], -x)))
        if len(v) > 1:
            F.append(("A13", Finding("table-layout", "functions disagree on the table's %s: %s" % (k, sorted(v)), (), ())))

    d = PoolDomain(R, "free_wait_state", True, phase=0)
    execute(m, ep["free_wait_state"], d)
    refs, idx = set(), set()
    for s, rv, i in d.finals:
        w = s.ts.get(("wsw", ("P", A1)), ())
        for off, n, k in w:
            if k == -1:
                refs.add(off)
        for k, v in s.ts.items():
            if k[0] == "log":
                for ent in v:
                    if ent[0] == "c" and ent[1][0] == "lin":
                        for c, x in ent[1][3]:
                            if c == 8 and x[0] == "s" and isinstance(x[2], tuple) and x[2][:2] == ("mem", ("P", A1)):
                                idx.add(x[2][2])
    if len(refs) != 1:
        refs = {w[0] for s in allocs for k, v in s.ts.items() if k[0] == "wsw" for w in v if w[2] == 1 and w[0] != R.cond}
    if len(refs) != 1 or len(idx) != 1:
        raise Broken("the reference count or index of a wait state could not be identified (%s, %s)" % (sorted(refs), sorted(idx)))
    R.ref, R.index = refs.pop(), idx.pop()
    return R, F


# ------------------------------------------------------------------ phase 1
class Result:
    def __init__(self):
        self.findings = []     # (prop, function, Finding)
        self.incomplete = []   # (function, message)
        self.counts = {}
        self.obl = 0
        self.extent = 0
        self.lock_term = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def each_truth(s, rv):
    """[(state, bool)] for a boolean return value"""
    v = T.trunc(rv, 1) if rv[1] > 1 else rv
    if T.isc(v):
        return [(s, bool(v[2]))]
    out = []
    for k in (True, False):
        s2 = s.copy()
        if s2.assume(v, k):
            out.append((s2, k))
    return out


class Judge:
    def __init__(self, m, R, res, cfg):
        self.m, self.R, self.res, self.cfg = m, R, res, cfg
        self.ep = entry_points(m)
        self.atexit = set()

    def run(self, name, held, fn=None, cls=PoolDomain, prep=None, nonnull=()):
        d = cls(self.R, name, held)
        d.nonnull = set(nonnull)
        try:
            e = execute(self.m, fn or self.ep[name], d, prep)
        except Incomplete as x:
            self.res.incomplete.append((name, str(x)))
            for p, f in d.findings:
                self.res.findings.append((p, name, f))
            return None
        for p, f in d.findings:
            self.res.findings.append((p, name, f))
        if not d.finals:
            if not d.findings:
                raise Broken("lock pool function %s has no returning path" % name)
            return None
        d.finals = [f for f in d.finals if not d.absurd(f[0])]
        if not d.finals:
            raise Broken("lock pool function %s has no feasible returning path" % name)
        self.res.count("pool functions analysed")
        self.res.count("paths judged", len(d.finals))
        self.res.count("abstract states", e.nstates)
        self.res.obl += d.obl + len(d.finals)
        self.res.extent = max(self.res.extent, d.lockextent)
        for k, v in d.events.items():
            if isinstance(k, str):
                self.res.count(k, v)
        for s, rv, i in d.finals:
            if s.ts.get(("atexit",)) is not None:
                self.atexit.add(s.ts[("atexit",)])
        self.d = d
        self.e = e
        return d

    def bad(self, prop, rule, name, s, i, msg):
        if "amb.(" in msg:
            # the content depends on writes whose overlap was not resolved
            self.res.incomplete.append((name, "%s: %s" % (rule, msg)))
            return
        self.res.findings.append((prop, name, Finding(rule, msg, i.loc, s.trail)))
        if prop == "A12" and name.startswith("wait") and s.decide(T.icmp("eq", A1, C64(0))) is True:
            self.res.findings.append(("A13", name, Finding("degraded-wait", "without memory for the wait state: " + msg, i.loc if i is not None else (), s.trail)))

    # -------------------------------------------------------------- locking
    def lock(self, name):
        def prep(e, st):
            # the lock functions see the mutex inside the global table: nothing known
            pass
        fn = self.ep[name]
        d = self.run(name, False, prep=prep)
        if d is None:
            return
        terms = set()
        for s, rv, i in d.finals:
            r, off = self.e.resolve(rv)
            h = s.ts.get(("held",))
            if h != r:
                self.bad("A09", "not-acquired", name, s, i, "the function returns on a path where it does not hold the lock it returns (%s)" % ("it holds another one" if h else "no acquisition"))
            if s.ts.get(("weakacq",)):
                self.bad("A09", "acquire-order", name, s, i, "the lock is acquired with an order weaker than acquire")
            if s.ts.get(("owes",)):
                self.bad("A09", "no-wake", name, s, i, "the function returns without waking threads blocked on a lock it released")
            terms.add(rv)
        if len(terms) != 1:
            self.res.findings.append(("A08", name, Finding("lock-choice", "%s returns different locks for one hash" % name, fn.blocks[0].insts[0].loc, ())))
        self.res.lock_term[name] = (sorted(terms, key=T.key)[0], fn.blocks[0].insts[0].loc)

    def unlock(self):
        d = self.run("unlock", True)
        if d is None:
            return
        for s, rv, i in d.finals:
            if s.ts.get(("held",)):
                self.bad("A09", "not-released", "unlock", s, i, "unlock returns on a path that does not release the lock")
            elif s.ts.get(("owes",)):
                self.bad("A09", "no-wake", "unlock", s, i, "unlock returns without waking a thread although the word it released had the contention mark")

    # -------------------------------------------------------------- waiting
    def waits(self, name):
        R = self.R

        def prep(e, st):
            if name == "wait_until":
                st.mem[("P", A3)] = ((0, 8, T.S(64, ("TSS", 0))), (8, 8, T.S(64, ("TSN", 0))))
                st.facts[T.icmp("slt", T.S(64, ("TSS", 0)), C64(0))] = False
            if name == "wait_for":
                st.facts[T.icmp("slt", C64(0), T.S(64, "DUR"))] = True
        fn = self.ep[name]
        cls = WaitPool
        d = cls(R, name, True)
        try:
            st = State()
            st.ts[("held",)] = ("P", A0)
            e = PoolEngine(fn, d, self.m)
            prep(e, st)
            args = [None] * len(fn.args)
            if name == "wait_for":
                args[2] = T.S(64, "DUR")
            e.run(st, args)
        except Incomplete as x:
            self.res.incomplete.append((name, str(x)))
            self.res.findings += [(p, name, f) for p, f in d.findings]
            return
        if not d.finals:
            raise Broken("lock pool function %s has no returning path" % name)
        res = self.res
        res.findings += [(p, name, f) for p, f in d.findings]
        res.count("pool functions analysed")
        res.count("paths judged", len(d.finals))
        res.count("abstract states", e.nstates)
        res.count("corner valuations evaluated", d.sampled)
        res.obl += d.obl + len(d.finals)
        for k, v in d.events.items():
            if isinstance(k, str):
                res.count(k, v)
        ABS = T.add(T.scale(T.S(64, ("TSS", 0)), NS), T.S(64, ("TSN", 0)))
        slept = 0
        for s, rv, i in d.finals:
            h = s.ts.get(("held",))
            if h != ("P", A0):
                self.bad("A12", "lock-not-held", name, s, i, "the wait returns without holding the internal lock")
                continue
            if s.ts.get(("owes",)):
                self.bad("A09", "no-wake", name, s, i, "the wait returns while it owes a wake-up of the mutex it released")
            if s.ts.get(("weakacq",)):
                self.bad("A09", "acquire-order", name, s, i, "the lock is reacquired with an order weaker than acquire")
            if not s.ts.get(("nrel",)):
                if s.decide(T.icmp("eq", A1, C64(0))) is True or name == "wait":
                    self.bad("A12", "never-released", name, s, i, "the wait returns without having released the lock: no notify can complete")
            d.account(e, s)
            null = s.decide(T.icmp("eq", A1, C64(0))) is True
            if not null:
                for f in d.FIELDS:
                    if getattr(R, f) is None:
                        continue
                    k = s.ts.get(("delta", f), 0)
                    if k != 0:
                        self.bad("A12" if f == "count" else "A13", "field-not-restored", name, s, i, "the wait leaves the wait state's %s changed by %s" % ({"count": "number of waiters", "ref": "reference count", "index": "table index"}[f], "an unknown amount" if k is None else k))
            if s.ts.get(("slept",)):
                slept += 1
            if name == "wait":
                continue
            res.count("wait results judged")
            for s2, truth in each_truth(s, rv):
                if truth:
                    ok = self.expired(d, s2, name, ABS, null)
                    if not ok:
                        self.bad("A12", "early-timeout", name, s2, i, "the wait reports a timeout on a path that does not establish that the time has passed")
                elif s2.ts.get(("to",)) and not s2.ts.get(("changed",)):
                    l, p = s2.ts.get(("lastc",)), s2.ts.get(("prev0",))
                    if not (l is not None and p is not None and s2.decide(T.icmp("eq", l, p)) is False):
                        self.bad("A12", "timeout-not-reported", name, s2, i, "the wait reports no timeout although the system reported that its time has passed")
                elif name == "wait_until" and s2.ts.get(("now",)) is not None and s2.ts.get(("fresh",)) and not s2.ts.get(("slept",)):
                    ok, n, cex = sampled(s2, lambda E: E(ABS) > E(s2.ts[("now",)]), (ABS, s2.ts[("now",)]), "nto")
                    if ok is not True and not null:
                        self.bad("A12", "timeout-not-reported", name, s2, i, "the wait neither blocks nor reports a timeout although the deadline may have passed (%s)" % cex)
        if not slept:
            self.res.findings.append(("A12", name, Finding("never-blocks", "the wait has no path on which it blocks or yields", fn.blocks[0].insts[0].loc, ())))

    def expired(self, d, s, name, ABS, null):
        if s.ts.get(("to",)):
            return True
        if name == "wait_until":
            now = s.ts.get(("now",))
            if now is None or s.ts.get(("nowclk",)) != T.S(32, ("arg", 2)):
                return False
            ok, n, cex = sampled(s, lambda E: E(now) >= E(ABS), (ABS, now), "exp")
            d.sampled += n
            return ok is True
        rd = s.ts.get(("reads",), ())
        dur = T.S(64, "DUR")
        for a in rd:
            for b in rd:
                if a is b or a[0] != "steady" or b[0] != "steady" or a[2]:
                    continue
                ok, n, cex = sampled(s, lambda E: E(b[1]) - E(a[1]) >= E(dur), (a[1], b[1], dur), ("dur", a[1], b[1]))
                d.sampled += n
                if ok is True:
                    return True
        return False

    # -------------------------------------------------------------- notifying
    def notify(self, name):
        d = self.run(name, True)
        if d is None:
            return
        R = self.R
        for s, rv, i in d.finals:
            if s.ts.get(("held",)) != ("P", A0) or s.ts.get(("nrel",)):
                if s.ts.get(("held",)) != ("P", A0):
                    self.bad("A09", "lock-not-held", name, s, i, "the function returns without the internal lock its caller holds")
                    continue
            f = s.ts.get(("found",))
            if f is None:
                # without a search there must be no table
                hdr = dict((o, t) for o, n, t in s.mem.get(("P", A0), ())).get(R.hdr)
                if hdr is None or s.decide(T.icmp("eq", hdr, C64(0))) is not True:
                    self.bad("A12", "no-search", name, s, i, "the function returns without looking for the object's waiters although the table exists")
                continue
            z = d.sizes(s)
            if z.le(lin(s.ts[("foundn",)]), lin(f[0])):
                continue
            b = f[1]
            ws = None
            for s2, w in d.read_cell(self.e, s, b, T.add(C64(R.pa), T.add(T.scale(d.cell0(b, R.cap), 8), T.scale(f[0], 8))), 8):
                reg = ("P", w)
                if not z.le(ladd(lin(f[0]), (1, {})), lin(s.ts[("foundn",)])):
                    pass
                if R.count is not None:
                    c = d_mem(s2, reg, R.count, 4)
                    if c is not None and s2.decide(T.icmp("eq", c, T.C(32, 0))) is True:
                        continue
                self.res.count("notifications judged")
                need = 1 if name == "notify_one" else INT_MAX
                if s2.ts.get(("bump",)) != w:
                    self.bad("A12", "no-change", name, s2, i, "the notification word of the object's wait state is not changed on a path where a waiter may be about to block: it sleeps through this notify")
                if s2.ts.get(("ntf",), 0) < need:
                    self.bad("A12", "too-few-woken", name, s2, i, "%s wakes or moves %s waiter(s) on a path where waiters may be blocked" % (name, s2.ts.get(("ntf",), 0)))
                if s2.ts.get(("rq",)) and R.C and not s2.ts.get(("cset",)):
                    self.bad("A12", "moved-not-marked", name, s2, i, "waiters are moved to the mutex but the contention mark is not set when the function returns: the release will not wake them")
            wsw = [k[1] for k in s.ts if k[0] == "wsw"]
            if wsw:
                self.bad("A13", "state-modified", name, s, i, "notifying modifies a wait state beyond its notification word")

    # -------------------------------------------------------------- bookkeeping
    def allocate(self):
        name = "allocate_wait_state"
        d = self.run(name, True)
        if d is None:
            return
        R = self.R
        fresh = kept = 0
        for s, rv, i in d.finals:
            if s.ts.get(("nrel",)) or s.ts.get(("held",)) != ("P", A0):
                self.res.incomplete.append((name, "the lock is released inside the function"))
                continue
            hs = T.S(64, ("BUF", ("mem", ("P", A0), R.hdr)))
            h0null = s.decide(T.icmp("eq", hs, C64(0)))
            if h0null is None:
                self.bad("A13", "table-not-examined", name, s, i, "the function returns without having looked at the table")
                continue
            f = s.ts.get(("found",))
            for s1, null in ([(s, True)] if T.isc(rv) and rv[2] == 0 else self.split_null(s, rv)):
                if null:
                    self.table_ok(d, s1, i, name, hs, h0null, None, rv)
                    if f is not None and self.is_found(d, s1, f):
                        self.bad("A13", "entry-not-used", name, s1, i, "the object's existing wait state is not returned: a second waiter would get none")
                    continue
                reg = ("P", rv)
                if f is not None and self.is_found(d, s1, f):
                    kept += 1
                    off = T.add(C64(R.pa), T.add(T.scale(d.cell0(hs, R.cap), 8), T.scale(f[0], 8)))
                    for s2, w in d.read_cell(self.e, s1, hs, off, 8):
                        if w != rv:
                            self.bad("A13", "wrong-entry", name, s2, i, "the wait state returned is not the one in the table at the position of the object's address")
                        self.table_ok(d, s2, i, name, hs, h0null, None, rv)
                        self.fields(d, s2, i, name, reg, {R.ref: 1})
                else:
                    fresh += 1
                    if not h0null and not (f is not None and d.sizes(s1).le(lin(s1.ts[("foundn",)]), lin(f[0]))):
                        self.bad("A13", "duplicate-entry", name, s1, i, "a new entry is added on a path where the object may already have one: a notify finds only one of them")
                    self.table_ok(d, s1, i, name, hs, h0null, rv, rv)
        if not fresh or not kept:
            raise Broken("allocate_wait_state: no path creates (%d) or no path shares (%d) an entry" % (fresh, kept))
        if d.extent_ws and R.ws_size is not None and d.extent_ws > R.ws_size:
            self.res.findings.append(("A13", name, Finding("out-of-bounds", "a wait state of %d bytes is accessed up to offset %d" % (R.ws_size, d.extent_ws), self.ep[name].blocks[0].insts[0].loc, ())))

    def split_null(self, s, rv):
        k = s.decide(T.icmp("eq", rv, C64(0)))
        if k is not None:
            return [(s, k)]
        out = []
        for v in (True, False):
            s2 = s.copy()
            if s2.assume(T.icmp("eq", rv, C64(0)), v):
                out.append((s2, v))
        return out

    def is_found(self, d, s, f):
        return d.sizes(s).le(ladd(lin(f[0]), (1, {})), lin(s.ts[("foundn",)]))

    def fields(self, d, s, i, name, reg, want):
        """net change of the fields of a wait state"""
        R = self.R
        txt = {R.ref: "reference count", R.index: "table index", R.count: "number of waiters"}
        for off, n in ((R.ref, 8), (R.index, 8), (R.count, 4)):
            if off is None:
                continue
            cur = d_mem(s, reg, off, n) or T.S(8 * n, ("mem", reg, off))
            k = T.sub(cur, T.S(8 * n, ("mem", reg, off)))
            self.res.obl += 1
            if not (T.isc(k) and T.sval(k) == want.get(off, 0)):
                self.bad("A13", "wrong-field", name, s, i, "the %s of a wait state changes to %s, must change by %d" % (txt[off], T.show(cur), want.get(off, 0)))

    def table_ok(self, d, s, i, name, hs, h0null, new, rv):
        """the table at return equals the one at entry plus, when new is given, one entry for the address"""
        R, e = self.R, self.e
        ZERO = C64(0)
        h = d_mem(s, ("P", A0), R.hdr, 8)
        if h is None:
            h = hs
        N = ZERO if h0null else d.cell0(hs, R.size)
        K = ZERO if h0null else d.cell0(hs, R.cap)
        k = s.decide(T.icmp("eq", h, ZERO)) if not T.isc(h) else h[2] == 0
        if k is True:
            if new is not None:
                self.bad("A13", "entry-lost", name, s, i, "there is no table after an entry was added")
            elif not h0null and not d.sizes(s).eq(lin(N), (0, {})):
                self.bad("A13", "live-table-dropped", name, s, i, "the table is dropped although it may have entries")
            return
        bo = base_of(h)
        if bo is None or bo[1] != ZERO:
            self.res.incomplete.append((name, "table pointer %s" % T.show(h)))
            return
        if s.ts.get(("freed", h)):
            self.bad("A13", "dangling-table", name, s, i, "the function returns while the table pointer points to freed storage")
            return
        if new is None and h0null and h == hs:
            return

        def rd(off, n=8, st=None):
            return d.read_cell(e, st or s, h, off, n)
        # size and capacity
        for s1, n1 in rd(C64(R.size)):
            want = T.add(N, C64(1)) if new is not None else N
            self.res.obl += 1
            if not d.sizes(s1).eq(lin(n1), lin(want)):
                self.bad("A13", "wrong-size", name, s1, i, "the table's size is %s at return, must be %s" % (T.show(n1), T.show(want)))
            for s2, k1 in rd(C64(R.cap), 8, s1):
                z = d.sizes(s2)
                ext = d.extent(s2, h)
                self.res.obl += 2
                if not z.le(lin(n1), lin(k1)):
                    self.bad("A13", "wrong-capacity", name, s2, i, "the table's size %s may exceed its capacity %s" % (T.show(n1), T.show(k1)))
                if ext is not None and h[2][0] == "NEW" and not z.le(ladd((R.pa, {}), lin(T.scale(k1, 16))), lin(ext)):
                    self.bad("A13", "wrong-capacity", name, s2, i, "the recorded capacity %s does not fit the storage of %s bytes" % (T.show(k1), T.show(ext)))
                self.elements(d, s2, i, name, h, hs, h0null, N, K, k1, new)

    def elements(self, d, s, i, name, h, hs, h0null, N, K, k1, new):
        R, e = self.R, self.e
        pa = lambda x: T.add(C64(R.pa), T.scale(x, 8))
        pw = lambda x, cap: T.add(pa(x), T.scale(cap, 8))
        j = T.S(64, "j")
        obl = self.res

        def old(off):
            return T.S(64, ("cell", hs, off))
        if new is not None:
            for s1, a in d.read_cell(e, s, h, pa(N), 8):
                obl.obl += 1
                if a != A1:
                    self.bad("A13", "wrong-address", name, s1, i, "the new entry's address is %s, must be the object's address: a notify does not find it" % T.show(a))
            for s1, w in d.read_cell(e, s, h, pw(N, k1), 8):
                obl.obl += 1
                if w != new:
                    self.bad("A13", "wrong-entry", name, s1, i, "the new entry's wait state is %s, not the one returned" % T.show(w))
            reg = ("P", new)
            spare = isinstance(new[2], tuple) and new[2][0] == "cell"
            if spare:
                self.fields(d, s, i, name, reg, {R.ref: 1})
            else:
                for off, n, want, what in ((R.ref, 8, C64(1), "reference count"), (R.index, 8, N, "table index"), (R.count, 4, T.C(32, 0), "number of waiters")):
                    if off is None:
                        continue
                    cur = d_mem(s, reg, off, n)
                    obl.obl += 1
                    if cur is None or not (cur == want or n == 8 and d.sizes(s).eq(lin(cur), lin(want))):
                        self.bad("A13", "wrong-field", name, s, i, "the %s of a new wait state is %s, must be %s" % (what, T.show(cur) if cur is not None else "not initialised", T.show(want)))
        # every other entry unchanged
        if not h0null:
            g = s.copy()
            if g.assume(T.icmp("ult", j, N), True) and not d.absurd(g):
                for which, o_new, o_old in (("address", pa(j), pa(j)), ("wait state", pw(j, k1), pw(j, K))):
                    for s1, t in d.read_cell(e, g, h, o_new, 8):
                        if d.absurd(s1):
                            continue
                        obl.obl += 1
                        if not self.same_cell(d, s1, t, hs, o_old):
                            self.bad("A13", "entry-lost", name, s1, i, "the %s of an existing entry j (of %s) is %s at return, must be what it was" % (which, T.show(N), T.show(t)))
        # spare slots
        g = s.copy()
        lo = T.add(N, C64(1)) if new is not None else N
        if g.assume(T.icmp("ult", j, lo), False) and g.assume(T.icmp("ult", j, k1), True) and not d.absurd(g):
            for s1, t in d.read_cell(e, g, h, pw(j, k1), 8):
                if d.absurd(s1):
                    continue
                obl.obl += 1
                if t == C64(0):
                    continue
                z = d.sizes(s1)
                if not h0null and self.same_cell(d, s1, t, hs, pw(j, K)) and (h == hs or z.le(ladd(lin(j), (1, {})), lin(K))) and not s1.ts.get(("freed", t)):
                    continue
                if isinstance(t[2], tuple) and t[2][0] == "OBJ" and t != new:
                    continue
                self.bad("A13", "bad-spare", name, s1, i, "a spare slot of the table holds %s at return (%s)" % (T.show(t), "never initialised" if any(isinstance(n, tuple) and n[0] == "uninit" for n in T.symbols(t)) else "must be null or an unused wait state"))
        # other wait states untouched
        for k in list(s.ts):
            if k[0] == "wsw" and k[1] != ("P", new) and new is not None:
                x = k[1][1]
                if isinstance(x[2], tuple) and x[2][0] == "OBJ":
                    continue
                self.bad("A13", "state-modified", name, s, i, "a wait state other than the new one is modified")

    def same_cell(self, d, s, t, hs, off):
        """t is the initial content of the cell of table hs at offset off"""
        if t[0] == "s" and isinstance(t[2], tuple) and t[2][0] == "cell" and t[2][1] == hs:
            return d.sizes(s).eq(lin(t[2][2]), lin(off))
        return False

    def release(self):
        """free_wait_state"""
        name = "free_wait_state"
        R = self.R
        hs = T.S(64, ("BUF", ("mem", ("P", A0), R.hdr)))
        REF, IDX = T.S(64, ("mem", ("P", A1), R.ref)), T.S(64, ("mem", ("P", A1), R.index))
        ZERO = C64(0)

        class D(PoolDomain):
            def entry_cell(self):
                return (hs, T.add(C64(R.pa), T.add(T.scale(self.cell0(hs, R.cap), 8), T.scale(IDX, 8))))

            def free_entry(self, e, s, i, p):
                if p == A1:
                    # its reference count must have reached zero
                    cur = d_mem(s, ("P", A1), R.ref, 8)
                    if cur is None or not self.sizes(s).eq(lin(cur), (0, {})):
                        self.find("A13", "live-entry-deleted", s, i, "a wait state is deleted while its reference count is not provably zero")
                    return
                PoolDomain.free_entry(self, e, s, i, p)

        def prep(e, st):
            d = e.domain
            N, K = d.cell0(hs, R.size), d.cell0(hs, R.cap)
            d.special.append((hs, T.add(C64(R.pa), T.add(T.scale(K, 8), T.scale(IDX, 8)))))
            d.special = [((hs, T.add(C64(R.pa), T.add(T.scale(K, 8), T.scale(IDX, 8)))), A1)]
            d.bufs.add(hs)
            st.facts[T.icmp("eq", hs, ZERO)] = False
            st.facts[T.icmp("ult", IDX, N)] = True
            st.facts[T.icmp("ult", ZERO, REF)] = True
            st.mem[("P", A0)] = ((R.hdr, 8, hs),)
            st.ts[("pre",)] = True
        d = self.run(name, True, cls=D, prep=prep)
        if d is None:
            return
        N, K = d.cell0(hs, R.size), d.cell0(hs, R.cap)
        erased = shared = 0
        for s, rv, i in d.finals:
            if s.ts.get(("held",)) != ("P", A0) or s.ts.get(("nrel",)):
                self.bad("A09", "lock-not-held", name, s, i, "the function releases the internal lock its caller holds")
                continue
            gone = s.ts.get(("freed", A1)) is not None
            wrote = any(k[0] in ("wsw", "log", "freed") for k in s.ts)
            if s.decide(T.icmp("eq", A1, ZERO)) is True:
                if wrote:
                    self.bad("A13", "null-dereference", name, s, i, "bookkeeping is changed for a null wait state")
                continue
            cur = d_mem(s, ("P", A1), R.ref, 8)
            self.res.obl += 1
            if cur is None or cur != T.sub(REF, C64(1)):
                self.bad("A13", "wrong-field", name, s, i, "the reference count changes from REF to %s, must be REF - 1" % (T.show(cur) if cur is not None else "itself"))
                continue
            z = d.sizes(s)
            one = z.eq(lin(REF), (1, {}))
            h = d_mem(s, ("P", A0), R.hdr, 8)
            if not one:
                shared += 1
                if s.decide(T.icmp("eq", cur, ZERO)) is not False and not z.le((2, {}), lin(REF)):
                    # which case it is was never asked: the entry must not have been removed, and must not have to be
                    self.bad("A13", "entry-kept", name, s, i, "the function returns without having checked whether the last reference is gone")
                if gone or h != hs or any(k[0] == "log" and v for k, v in s.ts.items()):
                    self.bad("A13", "live-entry-removed", name, s, i, "an entry is removed from the table while references to it remain")
                continue
            erased += 1
            self.erased(d, s, i, name, hs, h, N, K, IDX, gone)
        if not erased or not shared:
            raise Broken("free_wait_state: no path removes (%d) or none keeps (%d) the entry" % (erased, shared))

    def erased(self, d, s, i, name, hs, h, N, K, IDX, gone):
        R, e = self.R, self.e
        ZERO = C64(0)
        if T.isc(h) and h[2] == 0:
            if not d.sizes(s).eq(lin(N), (1, {})):
                self.bad("A13", "live-table-dropped", name, s, i, "the table is dropped although other entries may remain")
            return
        if h != hs:
            self.res.incomplete.append((name, "table replaced on removal"))
            return
        if s.ts.get(("freed", h)):
            self.bad("A13", "dangling-table", name, s, i, "the function returns while the table pointer points to freed storage")
            return
        pa = lambda x: T.add(C64(R.pa), T.scale(x, 8))
        pw = lambda x: T.add(pa(x), T.scale(K, 8))
        last = T.sub(N, C64(1))
        j = T.S(64, "j")
        for s1, n1 in d.read_cell(e, s, h, C64(R.size), 8):
            self.res.obl += 1
            if not d.sizes(s1).eq(lin(n1), lin(last)):
                self.bad("A13", "wrong-size", name, s1, i, "the table's size is %s after removing an entry, must be %s" % (T.show(n1), T.show(last)))
        # every other entry j survives: in place, or moved from the end into the hole
        g = s.copy()
        eqs = lambda st, a, b, v: st.assume(T.icmp("eq", *halves8(a, b)), v)
        if g.assume(T.icmp("ult", j, last), True) and eqs(g, j, IDX, False) and not d.absurd(g):
            for which, o in (("address", pa(j)), ("wait state", pw(j))):
                for s1, t in d.read_cell(e, g, h, o, 8):
                    if d.absurd(s1):
                        continue
                    self.res.obl += 1
                    if not self.same_cell(d, s1, t, hs, o):
                        self.bad("A13", "entry-lost", name, s1, i, "removing an entry changes the %s of another entry j to %s" % (which, T.show(t)))
                    elif which == "wait state":
                        self.fields(d, s1, i, name, ("P", t), {})
        g = s.copy()
        if eqs(g, IDX, last, False) and not d.absurd(g):
            for which, o, o0 in (("address", pa(IDX), pa(last)), ("wait state", pw(IDX), pw(last))):
                for s1, t in d.read_cell(e, g, h, o, 8):
                    if d.absurd(s1):
                        continue
                    self.res.obl += 1
                    if not self.same_cell(d, s1, t, hs, o0):
                        self.bad("A13", "entry-lost", name, s1, i, "after removing an entry from the middle its slot's %s is %s, must be the last entry's" % (which, T.show(t)))
                    elif which == "wait state":
                        ix = d_mem(s1, ("P", t), R.index, 8)
                        self.res.obl += 1
                        if ix is None or not d.sizes(s1).eq(lin(ix), lin(IDX)):
                            self.bad("A13", "wrong-index", name, s1, i, "the entry moved into the freed slot keeps its old table index: its own removal will take out another object's entry")
                        for off, n in ((R.ref, 8), (R.count, 4)):
                            if off is not None:
                                cur = d_mem(s1, ("P", t), off, n)
                                if cur is not None and cur != T.S(8 * n, ("mem", ("P", t), off)):
                                    self.bad("A13", "state-modified", name, s1, i, "the moved entry's counters are modified")
        # the spare slot left behind
        for s1, w in d.read_cell(e, s, h, pw(last), 8):
            if d.absurd(s1):
                continue
            self.res.obl += 1
            if w == A1 and not gone:
                ix = d_mem(s1, ("P", A1), R.index, 8) or IDX
                if not d.sizes(s1).eq(lin(ix), lin(last)):
                    self.bad("A13", "wrong-index", name, s1, i, "the wait state kept as spare at position %s records the position %s" % (T.show(last), T.show(ix)))
                cnt = R.count is not None and d_mem(s1, ("P", A1), R.count, 4)
                if cnt and cnt != T.S(32, ("mem", ("P", A1), R.count)):
                    self.bad("A13", "wrong-field", name, s1, i, "the number of waiters of a released entry is modified")
            elif w == ZERO or w[0] == "s" and isinstance(w[2], tuple) and w[2][0] == "amb" and self.swept(s1, h):
                pass
            else:
                self.bad("A13", "bad-spare", name, s1, i, "the slot after the last entry holds %s after a removal%s" % (T.show(w), ", a wait state that was deleted" if w == A1 else ""))

    def swept(self, s, h):
        return any(ent[0] == "hv" for ent in s.ts.get(("log", h), ()))

    # -------------------------------------------------------------- exit handler
    def cleanup(self):
        if not self.atexit:
            return
        for a in sorted(self.atexit, key=T.key):
            n = a[2]
            fn = self.m.functions.get(n[1][1]) if isinstance(n, tuple) and n[0] == "&" and n[1][0] == "G" else None
            if fn is None:
                self.res.incomplete.append(("atexit", "handler %s" % T.show(a)))
                continue
            d = self.run("exit handler", False, fn=fn, cls=ExitPool)
            if d is None:
                continue
            acq = 0
            for s, rv, i in d.finals:
                acq += s.ts.get(("nacq",), 0)
                if s.ts.get(("held",)):
                    self.bad("A09", "not-released", "exit handler", s, i, "the exit handler returns holding an internal lock")
                if s.ts.get(("owes",)):
                    self.bad("A09", "no-wake", "exit handler", s, i, "the exit handler returns without waking threads blocked on a lock it released")


def halves8(a, b):
    d = T.sub(a, b)
    # a == b  as an equation the linear domain reads
    return d, C64(0)


def d_mem(s, region, off, n):
    for o, m, t in s.mem.get(region, ()):
        if o == off and m == n:
            return t
    return None


class ExitPool(PoolDomain):
    forgetful = True


class WaitPool(PoolDomain):
    def extra_ineqs(self, s):
        return []

    def sleep_cond(self, e, s, i, reg, off, cmd, rt, v, args):
        if self.R.count is not None and self.phase and not s.ts.get(("held",)):
            k = s.ts.get(("delta", "count"), 0)
            if k is None or k < 1:
                self.find("A12", "not-counted", s, i, "the thread blocks without being counted as a waiter: notify will not wake it")
        return PoolDomain.sleep_cond(self, e, s, i, reg, off, cmd, rt, v, args)


def analyse(cfg):
    """-> Result of one configuration"""
    res = Result()
    m = load_module(cfg)
    try:
        R, F = discover(m)
    except Incomplete as x:
        raise Broken("discovery of the lock pool's layout: %s" % x)
    res.roles = R.text()
    for p, f in F:
        res.findings.append((p, "layout", f))
    try:
        judge(Judge(m, R, res, cfg))
        res.lock_index = index_check(m, res)
    except Broken as x:
        if not res.findings:
            raise
        res.incomplete.append(("analysis", str(x)))
        res.lock_index = []
    return res


def analyse_size(cfg, log2, extent):
    """the selection of a lock in a table of 2^log2 entries (BOOST_ATOMIC_LOCK_POOL_SIZE_LOG2)"""
    res = Result()
    m = load_module(cfg, ("-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=%d" % log2,))
    try:
        R, F = discover(m)
    except Incomplete as x:
        raise Broken("discovery of the lock pool's layout: %s" % x)
    J = Judge(m, R, res, cfg)
    J.lock("short_lock")
    J.lock("long_lock")
    # the bytes of an entry in use are those the whole analysis found in the default table
    res.extent = max(res.extent, extent)
    res.lock_index = index_check(m, res)
    for n in {x[2] for x in res.lock_index}:
        if n < (res.extent << log2):
            res.findings.append(("A08", "lock table", Finding("locks-overlap", "a table of 2^%d locks has only %d bytes" % (log2, n), (), ())))
    return res


def judge(J):
    J.lock("short_lock")
    J.lock("long_lock")
    J.unlock()
    for n in ("wait", "wait_until", "wait_for"):
        J.waits(n)
    for n in ("notify_one", "notify_all"):
        J.notify(n)
    J.allocate()
    J.release()
    J.cleanup()


def index_check(m, res):
    """A08: the lock chosen lies in the table and entries do not overlap"""
    out = []
    ts = set()
    for name, (t, loc) in res.lock_term.items():
        ts.add(t)
        base, rest = None, []
        for c, x in (t[3] if t[0] == "lin" else ((1, t),)):
            if c == 1 and x[0] == "s" and isinstance(x[2], tuple) and x[2][0] == "&":
                base = x[2][1]
            else:
                rest.append((c, x))
        if base is None or base[0] != "G":
            res.incomplete.append((name, "lock address %s" % T.show(t)))
            continue
        off = T._mklin(64, t[2] if t[0] == "lin" else 0, dict((x, c) for c, x in rest))
        syms = {n for n in T.symbols(off)}
        if syms - {("arg", 0)}:
            res.findings.append(("A08", name, Finding("lock-choice", "the lock chosen depends on something besides the hash (%s)" % ", ".join(map(str, syms)), loc, ())))
            continue
        mk, v = kbits(off)
        top = (~mk & ((1 << 64) - 1)) | (v & mk)
        free = ~mk & ((1 << 64) - 1)
        g = m.globals[base[1]]
        size = g.attr["vty"].store
        stride = free & -free if free else size
        res.obl += 3
        out.append((name, T.show(off), size, stride, res.extent))
        if top + res.extent > size:
            res.findings.append(("A08", name, Finding("lock-out-of-range", "the lock chosen can lie outside the table: offset up to %d plus %d bytes, table size %d" % (top, res.extent, size), loc, ())))
        if stride < res.extent:
            res.findings.append(("A08", name, Finding("locks-overlap", "two different locks may overlap: %d bytes apart, %d bytes used" % (stride, res.extent), loc, ())))
        al = g.attr.get("align") or 0
        if (v & mk) % 4 or stride % 4:
            res.findings.append(("A08", name, Finding("lock-misaligned", "the mutex word may be misaligned", loc, ())))
    if len(ts) > 1:
        t, loc = list(res.lock_term.values())[0]
        res.findings.append(("A08", "short_lock/long_lock", Finding("lock-choice", "short_lock and long_lock choose different locks for one hash: %s" % " / ".join(sorted(T.show(x) for x in ts)), loc, ())))
    return out
