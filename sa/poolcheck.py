"""Analysis of the lock pool (src/lock_pool.cpp): the futex mutex, the notify
protocol and the table of wait states.

Every externally visible function of the pool is interpreted abstractly with
its internal helpers inlined.  The mutex word is split on its two flag bits
(known-bits domain), table sizes and indices are linear terms (polyhedra), the
table's storage is a log of symbolic writes, and the roles of fields (mutex,
header pointer, size, capacity, notification word, waiter count, ...) are
found from what the code does with them, not from their names."""
import itertools
from . import terms as T, build, llvm, effects, waitcheck, evalterm
from .engine import Engine, Domain, State, Incomplete, tybits
from .domains import kbits, sharpen, Sizes, lin, lsub, ladd
from .effects import bits_of, short, Finding
from .waitcheck import sampled, NS, E_AGAIN, E_INTR, E_TIMEDOUT, E_NOSYS

FLAGS = ["-DBOOST_ATOMIC_SOURCE", "-DBOOST_ATOMIC_STATIC_LINK", "-DBOOST_ATOMIC_USE_SSE2", "-DBOOST_ATOMIC_USE_SSE41"]
LP = "boost::atomics::detail::lock_pool::"
A0, A1, A2, A3 = (T.S(64, ("arg", n)) for n in range(4))
C64 = lambda v: T.C(64, v)
INT_MAX = 0x7fffffff


def load_module(cfg, extra=()):
    fl, pre = build.CONFIGS[cfg]
    bc = build.compile_ir(pre + '#include "%s/src/lock_pool.cpp"\n' % build.REPO, fl + FLAGS + ["-I" + build.REPO + "/src"] + list(extra), name="lock_pool")
    return llvm.Module(bc)


def entry_points(m):
    """short name -> function, for the pool's externally visible functions"""
    out = {}
    for n, f in m.functions.items():
        d = short(n)
        if not f.decl and d.startswith(LP) and "(anonymous" not in d:
            out[d[len(LP):].split("(")[0]] = f
    return out


class Roles:
    mutex = None        # offset in the pool entry
    L = C = 0           # locked / contended bit masks
    hdr = None          # offset of the table pointer in the pool entry
    pa = size = cap = None
    cond = count = ref = index = None
    ws_size = None

    def __init__(self):
        self.private = {}       # futex kind -> the process-private flag its users pass

    def text(self):
        return ", ".join("%s=%s" % (k, getattr(self, k)) for k in ("mutex", "L", "C", "hdr", "pa", "size", "cap", "cond", "count", "ref", "index", "ws_size"))


def base_of(t):
    """(buffer base symbol, offset term) when t points into a table buffer"""
    if t[0] == "s":
        if isinstance(t[2], tuple) and t[2][0] in ("BUF", "NEW"):
            return t, C64(0)
        return None
    if t[0] == "lin":
        for c, x in t[3]:
            if c == 1 and x[0] == "s" and isinstance(x[2], tuple) and x[2][0] in ("BUF", "NEW"):
                return x, T.sub(t, x)
    return None


class PoolEngine(Engine):
    MAXSTATES = 60000

    def resolve(self, p):
        b = base_of(p)
        if b is not None:
            return ("B", b[0]), b[1]
        r, o = Engine.resolve(self, p)
        if o is None and r[0] == "G":
            k = p[2] - (1 << 64) if p[2] >> 63 else p[2]
            return ("P", T._mklin(64, 0, dict((x, c) for c, x in p[3]))), k
        return r, o

    def binop(self, op, w, a, i):
        r = Engine.binop(self, op, w, a, i)
        return sharpen(op, a[0], a[1] if len(a) > 1 else None, r)


def is_pool_entry(region):
    return region[0] == "P" and (region[1] == A0 or any(isinstance(n, tuple) and n[0] == "&" for n in T.symbols(region[1])))


class PoolDomain(Domain):
    def __init__(self, roles, fname, held, phase=1):
        self.R = roles
        self.fname = fname
        self.entry_held = held
        self.phase = phase
        self.findings = []
        self.finals = []
        self.events = {}
        self.finds = []          # (base, pa offset, size term) of every table search
        self.special = []        # initial cells with a known value: (offset term, value)
        self.bufs = set()
        self.extent_ws = 0
        self.obl = 0
        self.nonnull = set()
        self.unknown_calls = set()
        self.lockextent = 0
        self.ivs = {}
        self.iv_facts = {}
        self.sampled = 0
        self.clock = None
        self.cwaits = []
        self.mwaits = []

    # ------------------------------------------------------------ reporting
    def find(self, prop, rule, s, i, msg):
        self.findings.append((prop, Finding(rule, msg, i.loc if i is not None else (), s.trail)))
        if prop in ("A12", "A26") and self.degraded(s):
            self.findings.append(("A13", Finding("degraded-wait", "without memory for the wait state: " + msg, i.loc if i is not None else (), s.trail)))

    def degraded(self, s):
        """inside a wait that runs without a wait state (the allocation failed)"""
        return self.fname.startswith("wait") and s.decide(T.icmp("eq", A1, C64(0))) is True

    def ob(self, n=1):
        self.obl += n

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1

    # ------------------------------------------------------------ loops
    def at_block(self, e, s, b):
        fn = b.fn
        iv = self.ivs.get(fn.name)
        if iv is None:
            iv = self.ivs[fn.name] = induction(fn)
        for phi, init, step, bound in iv.get(b.idx, ()):
            cur = s.env.get(phi)
            if cur is None:
                continue
            sym = T.S(64, ("IV", fn.name, phi.idx))
            key = ("iv", fn.name, phi.idx)
            bt = e.val(s, bound) if bound is not None else None
            back = sym[2] in T.symbols(cur)
            if not back:
                s.ts[key] = cur
                s.ts[("ivb",) + key[1:]] = bt is not None and self.sizes(s).le(ladd(lin(cur), (1, {})), lin(bt))
            start = s.ts.get(key)
            if start is None:
                raise Incomplete("loop variable without a start")
            if not s.ts.get(("ivb",) + key[1:]):
                bt = None
            if back and self.forgetful and not s.ts.get(("held",)):
                self.at_rest(s, (key, ("ivb",) + key[1:]))
            keep = self.carried(s, sym, step) if back else {}
            self.advance(e, s, sym, start, step if back else None)
            s.env[phi] = sym
            s.facts.update(keep)
            f1 = T.icmp("ult", start, sym)
            if not T.isc(f1):
                s.assume(f1, back)
            elif back:
                s.facts[T.icmp("ult", sym, start)] = False
            f1 = T.icmp("ult", sym, start)
            if not T.isc(f1):
                s.facts[f1] = False
            if bt is not None:
                f2 = T.icmp("ult", sym, bt)
                if not T.isc(f2):
                    s.facts[f2] = True

    forgetful = False

    def at_rest(self, s, keep):
        """a loop iteration is complete and no lock is held: what it learned concerns nothing any more"""
        self.stale(s)
        for k in list(s.ts):
            if k not in keep and k[0] not in ("owes", "once", "atexit", "entry0", "nacq"):
                del s.ts[k]
        for r in list(s.mem):
            if r[0] in ("P", "B"):
                del s.mem[r]
        s.ts[("nacq",)] = min(1, s.ts.get(("nacq",), 0))
        s.facts.clear()

    def carried(self, s, sym, step):
        """comparisons of the next value of a loop variable, as facts of the new iteration"""
        out = {}
        nxt = T.add(sym, C64(step))
        for f, v in s.facts.items():
            if f[0] == "icmp" and f[2] in ("ult", "slt") and (f[3] == nxt) != (f[4] == nxt):
                o = f[4] if f[3] == nxt else f[3]
                if not any(n == sym[2] or within(sym[2], n) for n in T.symbols(o)):
                    out[T.icmp(f[2], *((sym, o) if f[3] == nxt else (o, sym)))] = v
        return out

    def progress(self, s, out, ent, sym, start, n):
        """the write of one iteration of a copying or clearing loop joined with those of the earlier ones: the range
        written so far, or None"""
        at = lambda t: T.subst(t, lambda x: start if x == sym else None)
        if lin(ent[1])[1].get(sym, 0) != n:
            return None
        lo, ln = at(ent[1]), T.scale(T.sub(sym, start), n)
        v = ent[3]
        if T.isc(v) and v[2] == 0:
            new = ("z", lo, ln, 0)
        elif v[0] == "s" and isinstance(v[2], tuple) and v[2][0] == "cell" and lin(v[2][2])[1].get(sym, 0) == n and v[2][1] != sym:
            new = ("cp", lo, ln, v[2][1], at(v[2][2]))
        else:
            return None
        for k in range(len(out) - 1, -1, -1):
            if out[k] == new:
                return new, k
        # the first iteration
        return (new, None) if s.decide(T.icmp("ult", start, sym)) is not True else None

    def summarise(self, s, z, log, sym, start, has):
        out = []
        grown = set()
        for ent in log:
            if ent[0] == "c" and isinstance(ent[2], int) and has(ent[1]):
                p = self.progress(s, out, ent, sym, start, ent[2])
                if p is not None:
                    new, k = p
                    if k is None:
                        grown.add(len(out))
                        out.append(new)
                        continue
                    if all(self.rel(z, ent[1], ent[2], x) == "out" for x in out[k + 1:]):
                        grown.add(k)
                        continue
            out.append(ent)
        # a range of earlier iterations this one did not extend
        for k, ent in enumerate(out):
            if ent[0] in ("cp", "z") and k not in grown and any(isinstance(x, tuple) and x and isinstance(x[0], str) and has(x) for x in ent[1:]):
                out[k] = ("hv", T.subst(ent[1], lambda t: start if t == sym else None), None)
        return tuple(out)

    def advance(self, e, s, sym, start, step=None):
        """everything recorded about the previous iteration is kept only in a form true of all earlier iterations"""
        nm = sym[2]

        def has(t):
            return any(n == nm or within(nm, n) for n in T.symbols(t))
        z = self.sizes(s)
        logs = {}
        for k, v in s.ts.items():
            if k[0] == "log" and step == 1:
                logs[k] = self.summarise(s, z, v, sym, start, has)
        s.rename(lambda n: n == nm or within(nm, n))
        for k, v in logs.items():
            s.ts[k] = v
        for r in list(s.mem):
            if r[0] in ("P", "B") and has(r[1]):
                del s.mem[r]
        for k, v in list(s.ts.items()):
            if k[0] == "log":
                out = []
                for ent in v:
                    if k in logs and ent[0] in ("cp", "z"):
                        out.append(ent)
                        continue
                    if ent[0] != "hv" and any(isinstance(x, tuple) and has(x) for x in ent[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)):
                        # written by earlier iterations: from the first one's address up to (not including) this one's
                        lo = T.subst(ent[1], lambda t: start if t == sym else None)
                        n = ent[2] if isinstance(ent[2], int) else None
                        hi = ent[1] if n is not None and lin(ent[1])[1].get(sym, 0) >= n else None
                        ent = ("hv", lo, hi)
                        if out and out[-1] == ent:
                            continue
                    out.append(ent)
                s.ts[k] = tuple(out)
            elif k[0] == "freed" and (has(k[1]) or any(has(x) for x in v if isinstance(x, tuple))):
                if v[1] is not None:
                    self.find("A13", "dangling-entry", s, None, "an object is deleted and its pointer left in the table when the loop continues")
                del s.ts[k]
            elif k[0] == "held" and v is not None and has(v[1]):
                self.find("A09", "lock-not-released", s, None, "a loop acquires the lock of another entry while one is held")
            elif isinstance(v, tuple) and v and isinstance(v[0], str) and len(v) > 2 and k[0] != "iv":
                try:
                    if has(v):
                        del s.ts[k]
                except Exception:
                    pass

    # ------------------------------------------------------------ sizes
    def sizes(self, s):
        ex = []
        R = self.R
        if R.cap is not None:
            for b in self.bufs:
                n, k = self.cell0(b, R.size), self.cell0(b, R.cap)
                ex.append(lsub(lin(k), lin(n)))
                ex.append(lsub(lin(k), (1, {})))
        for t in self.extra_ineqs(s):
            ex.append(t)
        return Sizes({t: v for t, v in s.facts.items() if t[0] == "icmp"}, ex)

    def extra_ineqs(self, s):
        return []

    def cell0(self, b, off):
        return T.S(64, ("cell", b, C64(off)))

    def extent(self, s, b):
        if b[2][0] == "NEW":
            return s.ts.get(("ext", b))
        if self.R.cap is None:
            return None
        return T.add(C64(self.R.pa), T.scale(self.cell0(b, self.R.cap), 16))

    # ------------------------------------------------------------ table storage
    def is_active_cell(self, s, sym):
        """initial content of a wait-state cell below the table's size: never null"""
        n = sym[2]
        if not (isinstance(n, tuple) and n[0] == "cell") or self.R.cap is None:
            return False
        b, off = n[1], n[2]
        z = self.sizes(s)
        rel = T.sub(off, T.add(C64(self.R.pa), T.scale(self.cell0(b, self.R.cap), 8)))
        N = self.cell0(b, self.R.size)
        return z.nonneg(lin(rel)) and z.le(ladd(lin(rel), (8, {})), lin(T.scale(N, 8)))

    def touch(self, e, s, i, region, off, size, write, what):
        """obligations of an access to the table, a wait state or an unprotected pool field"""
        self.ob()
        if not s.ts.get(("held",)) and self.phase:
            self.find("A13", "unlocked-access", s, i, "%s of shared bookkeeping (%s) without holding the internal lock" % (what, describe(region, off)))
        if s.ts.get(("weakacq",)):
            self.find("A09", "acquire-order", s, i, "data protected by the lock is accessed after acquiring it with an order weaker than acquire")
            s.ts.pop(("weakacq",), None)
        s.ts.pop(("relf",), None)
        if region[0] == "B":
            b = region[1]
            if s.ts.get(("freed", b)):
                self.find("A13", "use-after-free", s, i, "%s of the table's storage after it was freed" % what)
            if b[2][0] == "BUF":
                if s.decide(T.icmp("eq", b, C64(0))) is not False:
                    self.find("A13", "null-dereference", s, i, "%s through the table pointer on a path where it may be null" % what)
                self.bufs.add(b)
            ext = self.extent(s, b)
            if ext is not None and size is not None:
                z = self.sizes(s)
                end = ladd(lin(off), (size, {}) if isinstance(size, int) else lin(size))
                if not (z.nonneg(lin(off)) and z.le(end, lin(ext))):
                    self.find("A13", "out-of-bounds", s, i, "%s at offset %s (%s bytes) is not provably inside the table's storage of %s bytes" % (what, T.show(off), size if isinstance(size, int) else T.show(size), T.show(ext)))
        else:
            p = region[1]
            if is_pool_entry(region):
                return
            if s.ts.get(("freed", p)):
                self.find("A13", "use-after-free", s, i, "%s of a wait state after it was deleted" % what)
            if p not in self.nonnull and s.decide(T.icmp("eq", p, C64(0))) is not False and not self.is_active_cell(s, p):
                self.find("A13", "null-dereference", s, i, "%s through a pointer that may be null (%s)" % (what, T.show(p)))
            if off is None or off < 0:
                raise Incomplete("wait state offset")
            self.extent_ws = max(self.extent_ws, off + (size if isinstance(size, int) else 0))

    def rel(self, z, off, n, ent):
        """'in', 'out' or None: is [off, off+n) covered by the write / disjoint from it"""
        a = ent[1]
        lo, la = lin(off), lin(a)
        if ent[0] == "hv":
            return "out" if z.le(ladd(lo, (n, {})), la) or ent[2] is not None and z.le(lin(ent[2]), lo) else None
        ln = lin(ent[2]) if ent[0] != "c" else (ent[2], {})
        if ent[0] == "c" and ent[2] == n:
            if z.eq(lo, la):
                return "in"
            if z.differ(lo, la, 8):
                d = lsub(lo, la)
                if all(c % n == 0 for c in d[1].values()) and d[0] % n == 0:
                    return "out"
        if z.le(la, lo) and z.le(ladd(lo, (n, {})), ladd(la, ln)):
            return "in"
        if z.le(ladd(lo, (n, {})), la) or z.le(ladd(la, ln), lo):
            return "out"
        return None

    def read_cell(self, e, s, b, off, n, fork=True, depth=0):
        """[(state, term)]"""
        if depth > 6:
            raise Incomplete("table aliasing")
        out = []
        s = s.copy()
        for ent in reversed(s.ts.get(("log", b), ())):
            z = self.sizes(s)
            r = self.rel(z, off, n, ent)
            if r == "out":
                continue
            if r == "in":
                return out + self.content(e, s, b, off, n, ent, depth)
            if ent[0] == "c" and ent[2] == n and fork:
                eq = T.icmp("eq", *halves(off, ent[1]))
                s1 = s.copy()
                if s1.assume(eq, True) and not self.absurd(s1):
                    out += self.content(e, s1, b, off, n, ent, depth)
                if not s.assume(eq, False) or self.absurd(s):
                    return out
                continue
            if ent[0] in ("z", "cp") and fork:
                # before / inside / after the range
                a, en = ent[1], T.add(ent[1], ent[2])
                sp = []
                for conds in ([(T.icmp("ult", off, a), True)], [(T.icmp("ult", off, a), False), (T.icmp("ult", off, en), False)],
                              [(T.icmp("ult", off, a), False), (T.icmp("ult", off, en), True)]):
                    s1 = s.copy()
                    if all(s1.assume(c, v) for c, v in conds) and not self.absurd(s1) and self.rel(self.sizes(s1), off, n, ent):
                        sp.append(s1)
                if sp:
                    for s1 in sp:
                        out += self.read_cell(e, s1, b, off, n, fork, depth + 1)
                    return out
            return out + [(s, T.S(8 * n, ("amb", b, off)))]
        if b[2][0] == "NEW":
            return out + [(s, T.S(8 * n, ("uninit", b, off)))]
        for a, v in self.special:
            if a[0] != b:
                continue
            z = self.sizes(s)
            r = self.rel(z, off, n, ("c", a[1], n, v))
            if r == "in":
                return out + [(s, v)]
            if r is None and fork:
                eq = T.icmp("eq", *halves(off, a[1]))
                s1 = s.copy()
                if s1.assume(eq, True) and not self.absurd(s1):
                    out.append((s1, v))
                if not s.assume(eq, False) or self.absurd(s):
                    return out
            elif r is None:
                return out + [(s, T.S(8 * n, ("amb", b, off)))]
        return out + [(s, T.S(8 * n, ("cell", b, off)))]

    def absurd(self, s):
        from .domains import infeasible
        z = self.sizes(s)
        return infeasible(z.ineqs + [(0, {x: 1}) for x in z.atoms((0, {}))])

    def content(self, e, s, b, off, n, ent, depth):
        if ent[0] == "c":
            if ent[2] == n and self.sizes(s).eq(lin(off), lin(ent[1])):
                return [(s, ent[3])]
            d = T.sub(off, ent[1])
            if T.isc(d):
                return [(s, T.extract(ent[3], 8 * d[2], 8 * n))]
            return [(s, T.S(8 * n, ("amb", b, off)))]
        if ent[0] == "z":
            return [(s, T.C(8 * n, int.from_bytes(bytes([ent[3]]) * n, "little")))]
        if ent[0] == "cp":
            return self.read_cell(e, s, ent[3], T.add(ent[4], T.sub(off, ent[1])), n, True, depth + 1)
        raise Incomplete("table content")

    def put(self, s, b, ent):
        s.ts[("log", b)] = s.ts.get(("log", b), ()) + (ent,)

    # ------------------------------------------------------------ accesses
    def is_shared(self, e, s, region):
        if region[0] == "B":
            return True
        if region[0] == "G":
            return True
        if region[0] == "P":
            if region[1] == A3 and self.fname == "wait_until":
                return False
            return True
        return False

    def is_mutex(self, region, off):
        return is_pool_entry(region) and self.R.mutex is not None and off == self.R.mutex

    def is_cond(self, region, off):
        return region[0] == "P" and not is_pool_entry(region) and self.R.cond is not None and off == self.R.cond

    def words(self, e, s, i, tag):
        """every state of the mutex word consistent with what this thread knows"""
        nm = ("mx", tag, i.idx, i.block.fn.name)
        s.rename(lambda n: n == nm)
        self.forget(s, nm)
        x = T.S(32, nm)
        if not self.R.L:
            return [(s, x)]
        L, C = self.R.L, self.R.C
        b = T.and_(x, T.C(32, ~(L | C)))
        out = []
        for l in (0, 1):
            if s.ts.get(("held",)) and not l:
                continue
            for c in ((0, 1) if C else (0,)):
                if s.ts.get(("cset",)) and s.ts.get(("held",)) and not c:
                    continue
                s2 = s.copy()
                out.append((s2, T.add(b, T.C(32, (L if l else 0) | (C if c else 0)))))
        return out

    def stale(self, s):
        """the words observed so far say nothing any more about what this thread does next"""
        s.rename(lambda n: isinstance(n, tuple) and n and n[0] in ("mx", "woken", "fw"))
        for k in (("inst",), ("wake",), ("tick",)):
            s.ts.pop(k, None)

    def forget(self, s, nm):
        for k, v in list(s.ts.items()):
            if k in (("inst",), ("wake",)) and v is not None and nm in T.symbols(v):
                del s.ts[k]

    def acc_load(self, e, s, i, region, off, size, order, atomic):
        atomic = atomic or order in ("vol", "mov") and size in (1, 2, 4, 8)
        s = s.copy()
        if region[0] == "G":
            return self.global_load(e, s, i, region, off, size, atomic)
        if self.is_mutex(region, off) or (self.phase == 0 and is_pool_entry(region) and size == 4 and atomic):
            self.ob()
            self.check_entry(region, off, size)
            if not atomic or size != 4:
                self.find("A09", "non-atomic-mutex", s, i, "the mutex word is read by a non-atomic or partial access")
            return self.words(e, s, i, "ld")
        if self.is_cond(region, off):
            self.ob()
            self.nullcheck(s, i, region)
            if not atomic and not s.ts.get(("held",)):
                self.find("A12", "non-atomic-cond", s, i, "the notification word is read non-atomically without the lock")
            if s.ts.get(("held",)):
                t = e.mem_read(s, region, off, size)
                s.ts[("prev",)] = t
                return [(s, t)]
            nm = ("cond", i.idx, i.block.fn.name)
            s.rename(lambda n: n == nm)
            if s.ts.get(("lastc",)) is not None and nm in T.symbols(s.ts[("lastc",)]):
                s.ts.pop(("lastc",))
            t = T.S(8 * size, nm)
            p = s.ts.get(("prev0",))
            if p is not None and s.ts.get(("changed",)):
                s.assume(T.icmp("eq", t, p), False)
            s.ts[("lastc",)] = t
            return [(s, t)]
        self.touch(e, s, i, region, off, size, False, "read")
        if region[0] == "B":
            out = self.read_cell(e, s, region[1], off, size)
            for s2, t in out:
                for n in T.symbols(t):
                    if isinstance(n, tuple) and n[0] == "uninit":
                        self.find("A13", "uninitialised-entry", s2, i, "an element of the new table is read before it was initialised")
                if t[0] == "s" and size == 8 and self.is_active_cell(s2, t):
                    s2.facts[T.icmp("eq", t, C64(0))] = False
            return out
        self.check_entry(region, off, size)
        t = e.mem_read(s, region, off, size)
        if is_pool_entry(region) and size == 8 and t[0] == "s" and t[2][0] != "BUF" and base_of(t) is None:
            t = T.S(64, ("BUF", t[2]))
            e.mem_write(s, region, off, 8, t)
        return [(s, t)]

    def check_entry(self, region, off, size):
        if is_pool_entry(region):
            self.lockextent = max(self.lockextent, off + size)

    def nullcheck(self, s, i, region):
        p = region[1]
        if p not in self.nonnull and s.decide(T.icmp("eq", p, C64(0))) is not False and not self.is_active_cell(s, p):
            self.find("A13", "null-dereference", s, i, "access through a pointer that may be null (%s)" % T.show(p))

    def acc_store(self, e, s, i, region, off, size, v, order, atomic):
        atomic = atomic or order in ("vol", "mov") and size in (1, 2, 4, 8)
        s = s.copy()
        if region[0] == "G":
            return self.global_store(e, s, i, region, off, size, v, atomic)
        if self.is_mutex(region, off):
            self.find("A09", "mutex-overwritten", s, i, "the mutex word is overwritten by a store, which can lose a concurrent update of it")
            return [s]
        if self.is_cond(region, off):
            self.nullcheck(s, i, region)
            if not s.ts.get(("held",)):
                self.find("A12", "cond-unlocked", s, i, "the notification word is written without holding the lock")
            else:
                self.cond_update(e, s, i, region, off, e.mem_read(s, region, off, size), v)
            if not atomic and self.fname != "allocate_wait_state":
                self.find("A12", "non-atomic-cond", s, i, "the notification word is written non-atomically")
            e.mem_write(s, region, off, size, v)
            return [s]
        self.touch(e, s, i, region, off, size, True, "write")
        if region[0] == "B":
            b = region[1]
            for k in list(s.ts):
                if k[0] == "freed" and s.ts[k][1] is not None and s.ts[k][0] == b:
                    z = self.sizes(s)
                    if z.eq(lin(s.ts[k][1]), lin(off)):
                        s.ts[k] = (b, None)
            self.put(s, b, ("c", off, size, v))
            s.ts[("wr",)] = True
            return [s]
        self.check_entry(region, off, size)
        if is_pool_entry(region) and self.phase and size == 8 and off == self.R.hdr + s.ts.get(("entry0",), 0):
            self.table_pointer(e, s, i, region, off, v)
        if not is_pool_entry(region):
            d = T.sub(v, e.mem_read(s, region, off, size))
            s.ts[("wsw", region)] = s.ts.get(("wsw", region), ()) + ((off, size, T.sval(d) if T.isc(d) else None),)
        e.mem_write(s, region, off, size, v)
        return [s]

    def table_pointer(self, e, s, i, region, off, v):
        """the table may be dropped only while it is empty"""
        self.ob()
        old = e.mem_read(s, region, off, 8)
        if s.decide(T.icmp("eq", v, C64(0))) is not True:
            return
        if s.decide(T.icmp("eq", old, C64(0))) is True or base_of(old) is None:
            return
        for s2, N in self.read_cell(e, s, old, C64(self.R.size), 8, True):
            if not self.sizes(s2).eq(lin(N), (0, {})):
                self.find("A13", "live-table-dropped", s2, i, "the table is dropped although it is not provably empty")

    def acc_rmw(self, e, s, i, region, off, size, f, order, locked=True):
        s = s.copy()
        if region[0] == "G":
            return self.global_rmw(e, s, i, region, off, size, f)
        if self.is_mutex(region, off) or (self.phase == 0 and is_pool_entry(region)):
            self.check_entry(region, off, size)
            if not locked or size != 4:
                self.find("A09", "non-atomic-mutex", s, i, "the mutex word is modified by an access that is not one locked 4-byte operation")
            out = []
            for s2, old in self.words(e, s, i, "rmw"):
                r = self.update(e, s2, i, region, off, old, f(old), order)
                if r:
                    out.append((s2, old))
            return out
        if self.is_cond(region, off):
            self.ob()
            self.nullcheck(s, i, region)
            if not s.ts.get(("held",)):
                self.find("A12", "cond-unlocked", s, i, "the notification word is changed without holding the lock: a waiter's reading of it may be missed")
            old = e.mem_read(s, region, off, size)
            new = f(old)
            self.cond_update(e, s, i, region, off, old, new)
            e.mem_write(s, region, off, size, new)
            return [(s, old)]
        self.touch(e, s, i, region, off, size, True, "modification")
        if region[0] == "B":
            raise Incomplete("atomic operation on the table")
        self.check_entry(region, off, size)
        old = e.mem_read(s, region, off, size)
        e.mem_write(s, region, off, size, f(old))
        if not is_pool_entry(region):
            d = T.sub(f(old), old)
            s.ts[("wsw", region)] = s.ts.get(("wsw", region), ()) + ((off, size, T.sval(d) if T.isc(d) else None),)
        return [(s, old)]

    def cond_update(self, e, s, i, region, off, old, new):
        d = T.sub(new, old)
        if T.isc(d) and d[2] != 0:
            s.ts[("bump",)] = region[1]
            self.ev("notification word changed")

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        if not (self.is_mutex(region, off) or (self.phase == 0 and is_pool_entry(region))):
            if region[0] == "G":
                out = []
                for k in (True, False):
                    s2 = s.copy()
                    out.append((s2, k, exp if k else T.S(8 * size, ("gl", i.idx))))
                return out
            raise Incomplete("compare-exchange on %s" % (region,))
        self.check_entry(region, off, size)
        if size != 4:
            self.find("A09", "non-atomic-mutex", s, i, "the mutex word is modified by a %d byte access" % size)
        out = []
        s1 = s.copy()
        if self.update(e, s1, i, region, off, exp, new, so, cas=True):
            out.append((s1, True, exp))
        for s2, obs in self.words(e, s.copy(), i, "cas"):
            out.append((s2, False, obs))
        return out

    # ------------------------------------------------------------ the mutex
    def update(self, e, s, i, region, off, old, new, order, cas=False):
        """old -> new on the mutex word; False when the transition cannot happen"""
        R = self.R
        if self.phase == 0:
            if self.fname in ("short_lock", "long_lock", "unlock"):
                s.ts[("upd",)] = (region, off, old, new)
            return True
        km, kv = kbits(old)
        nm, nv = kbits(new)
        L, C = R.L, R.C
        held = s.ts.get(("held",))
        if km & L != L or (C and km & C != C):
            if old == T.C(32, 0):
                pass
            else:
                raise Incomplete("mutex word not split")
        ol, oc = kv & L, kv & C
        if held and not ol:
            return False          # only the holder clears the bit
        if held and s.ts.get(("cset",)) and not oc:
            return False
        self.ob()
        self.ev("mutex updates judged")
        if nm & L != L:
            self.find("A09", "lock-bit-unknown", s, i, "an update leaves the lock bit with a value that depends on more than the old word")
            return True
        if C and nm & C != C:
            self.find("A09", "contended-bit-unknown", s, i, "an update leaves the contention bit with a value that depends on more than the old word")
            return True
        nl, nc = nv & L, nv & C
        b = bits_of(order)
        if not ol and nl:
            self.ev("acquisitions")
            if held:
                return False
            if not b & 1:
                s.ts[("weakacq",)] = True
            if oc and not nc:
                self.find("A09", "contended-lost", s, i, "taking the lock clears the mark left by blocked threads: nobody wakes them")
            self.acquired(e, s, i, region)
            s.ts[("cset",)] = bool(nc)
        elif ol and not nl:
            self.ev("releases")
            if not held:
                self.find("A09", "release-not-held", s, i, "the lock bit is cleared on a path that does not hold the lock")
            if not b & 2 and not s.ts.get(("relf",)):
                self.find("A09", "release-order", s, i, "the lock is released with an order weaker than release")
            if s.ts.get(("weakacq",)):
                s.ts.pop(("weakacq",))
            if oc:
                s.ts[("owes",)] = "one" if nc else "all"
            rest = (~(L | C)) & 0xffffffff
            d = T.sub(T.and_(new, T.C(32, rest)), T.and_(old, T.C(32, rest)))
            s.ts[("tick",)] = ticks(old, new, rest)
            self.released(e, s, i, region)
            s.ts[("inst",)] = new
        else:
            if oc and not nc:
                if ol:
                    self.find("A09", "contended-lost", s, i, "the mark left by blocked threads is cleared while the lock is held: the holder will not wake them")
                else:
                    w = s.ts.get(("wake",))
                    ok = cas and s.ts.get(("inst",)) == old and w is not None and woke_none(s, w) and not held
                    if not ok:
                        self.find("A09", "contended-lost", s, i, "the contention mark is cleared although a thread may be blocked (only a compare-exchange from the very value installed by the release, after a wake-up that found nobody, may clear it)")
                    elif not s.ts.get(("tick",)):
                        self.find("A09", "contended-aba", s, i, "the contention mark is cleared by a compare-exchange from the released value, but a release does not change the word's other bits, so the word may have been locked, contended and released again meanwhile")
            if held and nc:
                s.ts[("cset",)] = True
            if not ol and held:
                return False
        s.note(i, "mutex %s%s -> %s%s" % ("L" if ol else "-", "C" if oc else "-", "L" if nl else "-", "C" if nc else "-"))
        return True

    def acquired(self, e, s, i, region):
        self.stale(s)
        s.ts[("held",)] = region
        s.ts[("nacq",)] = min(3, s.ts.get(("nacq",), 0) + 1)
        self.havoc(e, s)
        self.rebase(e, s)
        s.ts.pop(("relf",), None)

    def released(self, e, s, i, region):
        if region != s.ts.get(("held",)) and s.ts.get(("held",)):
            self.find("A09", "release-other", s, i, "the lock released is not the one held")
        s.ts[("cset",)] = False
        s.ts[("nrel",)] = min(3, s.ts.get(("nrel",), 0) + 1)
        for k, v in list(s.ts.items()):
            if k[0] == "freed" and v[1] is not None:
                self.find("A13", "dangling-entry", s, i, "the lock is released while the table still holds the pointer of a deleted object")
        s.ts[("prev0",)] = s.ts.pop(("prev",), None)
        self.before_release(e, s, i)
        s.ts[("held",)] = None

    def before_release(self, e, s, i):
        self.account(e, s)
        self.table_at_rest(e, s, i)

    FIELDS = ("count", "ref", "index")

    def account(self, e, s):
        """what this thread changed in its wait state's fields while it held the lock"""
        for f in self.FIELDS:
            off = getattr(self.R, f)
            if off is None:
                continue
            n = 4 if f == "count" else 8
            r = ("P", A1)
            base = s.ts.get(("base", f), T.S(8 * n, ("mem", r, off)))
            cur = dict((o, t) for o, m, t in s.mem.get(r, ()) if m == n).get(off, base)
            d = T.sub(cur, base)
            s.ts[("delta", f)] = T.sval(d) + s.ts.get(("delta", f), 0) if T.isc(d) and s.ts.get(("delta", f), 0) is not None else None

    def rebase(self, e, s):
        for f in self.FIELDS:
            off = getattr(self.R, f)
            if off is None:
                continue
            n = 4 if f == "count" else 8
            s.ts[("base", f)] = e.mem_read(s, ("P", A1), off, n)

    def table_at_rest(self, e, s, i):
        """the lock is about to be given up: the table pointer must be usable by the next holder"""
        if self.R.hdr is None or not self.phase:
            return
        r = s.ts.get(("held",)) or ("P", A0)
        for o, n, t in s.mem.get(r, ()):
            if o == self.R.hdr + s.ts.get(("entry0",), 0) and n == 8 and s.ts.get(("freed", t)):
                self.find("A13", "dangling-table", s, i, "the lock is given up while the table pointer still points to freed storage")

    def havoc(self, e, s):
        """other threads may have changed everything the lock protects"""
        g = s.ts.get(("gen",), 0) + 1
        s.ts[("gen",)] = min(g, 3)
        g = s.ts[("gen",)]
        for r in list(s.mem):
            if r[0] == "P" and self.is_shared(e, s, r):
                s.mem[r] = tuple((o, n, T.S(8 * n, ("g", g, r, o))) for o, n, _ in s.mem[r])
            if r[0] == "B":
                del s.mem[r]
        for k in list(s.ts):
            if k[0] in ("log", "wsw", "ext", "freed"):
                del s.ts[k]

    def on_fence(self, e, s, i, order, st):
        b = bits_of(order)
        if not st:
            if b & 1:
                s.ts.pop(("weakacq",), None)
            if b & 2:
                s.ts[("relf",)] = True
        return None

    def on_pause(self, e, s, i):
        return None

    # ------------------------------------------------------------ globals
    def global_load(self, e, s, i, region, off, size, atomic):
        return [(s, T.S(8 * size, ("gl", region[1], off if isinstance(off, int) else 0)))]

    def global_store(self, e, s, i, region, off, size, v, atomic):
        if not atomic:
            self.find("A13", "unlocked-access", s, i, "a process-wide variable is written non-atomically")
        return [s]

    def global_rmw(self, e, s, i, region, off, size, f):
        nm = ("once", region[1], i.idx)
        s.rename(lambda n: n == nm)
        old = T.S(8 * size, nm)
        s.ts[("once",)] = old
        return [(s, old)]

    # ------------------------------------------------------------ calls
    BENIGN = ("sched_yield", "pthread_yield")

    def pre_call(self, e, s, i, name, args):
        d = short(name)
        if name == "syscall":
            return self.syscall(e, s.copy(), i, args)
        if name == "__errno_location":
            s = s.copy()
            s.env[i] = T.S(64, ("&", ("L", "errno", 0)))
            return [s]
        if name in ("nanosleep", "clock_nanosleep", "usleep") or name in self.BENIGN:
            s = s.copy()
            if s.ts.get(("held",)):
                self.find("A26", "sleep-with-lock", s, i, "%s while the internal lock is held" % name)
            self.stale(s)
            s.ts[("slept",)] = True
            s.ts[("polled",)] = True
            s.ts[("fresh",)] = False
            s.env[i] = T.C(32, 0)
            s.note(i, name)
            return [s]
        if name == "atexit":
            s = s.copy()
            o = s.ts.get(("once",))
            if o is None or s.decide(T.icmp("eq", o, T.C(o[1], 0))) is not True:
                self.find("A13", "cleanup-registered-twice", s, i, "the exit handler is registered on a path where it may have been registered already")
            s.ts[("atexit",)] = args[0]
            s.env[i] = T.C(32, 0)
            self.ev("exit handler registrations")
            return [s]
        if name == "posix_memalign" or name == "aligned_alloc":
            return self.alloc_buf(e, s, i, name, args)
        if name in ("malloc", "calloc"):
            raise Incomplete(name)
        if name == "free":
            return self.free(e, s.copy(), i, args[0], "free")
        if d.startswith("operator new"):
            s2 = s.copy()
            if not T.isc(args[0]):
                raise Incomplete("size of a wait state")
            self.ob()
            nm = ("OBJ", i.idx)
            x = T.S(64, nm)
            s2.env[i] = C64(0)
            s1 = s.copy()
            s1.rename(lambda n: n == nm)
            s1.env[i] = x
            s1.ts[("new", x)] = args[0][2]
            self.R.ws_size = args[0][2] if self.R.ws_size is None else min(self.R.ws_size, args[0][2])
            s1.facts[T.icmp("eq", x, C64(0))] = False
            s1.note(i, "new")
            s2.note(i, "new: failed")
            if "nothrow" not in d:
                self.find("A13", "throwing-allocation", s, i, "memory is obtained by an allocation that throws on failure instead of reporting it")
            return [s1, s2]
        if d.startswith("operator delete"):
            return self.free(e, s.copy(), i, args[0], "delete")
        if name == "clock_gettime":
            return self.gettime(e, s, i, args)
        if d in ("std::chrono::_V2::steady_clock::now()", "std::chrono::_V2::system_clock::now()"):
            s = s.copy()
            nm = ("NOW", i.idx)
            s.rename(lambda n: n == nm)
            t = T.S(64, nm)
            s.env[i] = t
            rd = s.ts.get(("reads",), ())
            s.ts[("reads",)] = tuple(x for x in rd if x[1] != t) + (("steady" if "steady" in d else "system", t, bool(s.ts.get(("slept",)))),)
            return [s]
        if d.startswith("boost::atomics::detail::find_address_") and len(args) == 3:
            return self.search(e, s, i, args)
        if name in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock"):
            raise Incomplete("unexpected back-end (%s)" % name)
        return None

    def on_call(self, e, s, i, name, args):
        if name and name.startswith("llvm.memcpy") or name and name.startswith("llvm.memmove"):
            return self.bulk(e, s.copy(), i, args, "cp")
        if name and name.startswith("llvm.memset"):
            return self.bulk(e, s.copy(), i, args, "z")
        if name == "__clang_call_terminate" or name and short(name) == "std::terminate()":
            return []
        if name is None or i.attr["callee"].kind not in ("func", "alias", "asm"):
            c = i.attr["callee"]
            if len(args) == 3:
                return self.search(e, s, i, args)
            raise Incomplete("indirect call")
        if name.startswith("llvm."):
            return None
        if i.attr["callee"].kind == "asm":
            return None
        raise Incomplete("call to %s" % short(name))

    def bulk(self, e, s, i, args, kind):
        (r, off), n = e.resolve(args[0]), args[2]
        self.ob()
        if r[0] != "B":
            raise Incomplete("block operation on %s" % (r,))
        self.touch(e, s, i, r, off, n, True, "block write")
        if kind == "z":
            if not T.isc(args[1]):
                raise Incomplete("memset value")
            self.put(s, r[1], ("z", off, n, args[1][2] & 255))
            return [s]
        r2, off2 = e.resolve(args[1])
        if r2[0] != "B":
            raise Incomplete("block copy from %s" % (r2,))
        self.touch(e, s, i, r2, off2, n, False, "block read")
        self.put(s, r[1], ("cp", off, n, r2[1], off2))
        return [s]

    def on_bulk_read(self, e, s, i, region, off, n):
        if region[0] == "B":
            return self.acc_load(e, s, i, region, off, n, "bulk", False)
        return Domain.on_bulk_read(self, e, s, i, region, off, n)

    def on_bulk_write(self, e, s, i, region, off, n, t):
        if region[0] == "B":
            s = s.copy()
            self.touch(e, s, i, region, off, n, True, "block write")
            if T.isc(t) and t[2] == 0:
                self.put(s, region[1], ("z", off, C64(n), 0))
            else:
                self.put(s, region[1], ("c", off, n, t))
            return [s]
        return Domain.on_bulk_write(self, e, s, i, region, off, n, t)

    def search(self, e, s, i, args):
        s = s.copy()
        self.ob()
        r, off = e.resolve(args[1])
        if r[0] != "B":
            raise Incomplete("search outside the table")
        self.finds.append((r[1], off, args[2], i))
        b = r[1]
        if args[0] != A1:
            self.find("A12", "search-other-address", s, i, "the table is searched for an address other than the object's")
        if self.phase:
            if T.isc(off) and off[2] % 16:
                self.find("A13", "buffer-alignment", s, i, "the addresses start at byte %d of the table's storage, which is not aligned for the vector search" % off[2])
            self.touch(e, s, i, r, off, T.scale(args[2], 8), False, "search")
            z = self.sizes(s)
            N = self.read_cell(e, s, b, C64(self.R.size), 8)
            if not (T.isc(off) and off[2] == self.R.pa):
                self.find("A13", "search-wrong-array", s, i, "the search does not start at the first address of the table")
            if len(N) != 1 or not z.eq(lin(N[0][1]), lin(args[2])):
                self.find("A13", "search-wrong-size", s, i, "the search covers %s entries, the table has %s" % (T.show(args[2]), T.show(N[0][1])))
        nm = ("pos", i.idx)
        s.rename(lambda n: n == nm)
        s.env[i] = T.S(64, nm)
        s.ts[("found",)] = (T.S(64, nm), b)
        s.ts[("foundn",)] = args[2]
        self.ev("table searches")
        return [s]

    # ------------------------------------------------------------ memory
    def alloc_buf(self, e, s, i, name, args):
        if name == "posix_memalign":
            out, al, size = args
        else:
            out, al, size = None, args[0], args[1]
        self.ob()
        if not s.ts.get(("atexit_ok",)):
            pass
        if not T.isc(al) or al[2] % 16 or al[2] & (al[2] - 1):
            self.find("A13", "buffer-alignment", s, i, "the table's storage is not aligned for the vector search (alignment %s)" % T.show(al))
        nm = ("NEW", i.idx)
        s1, s2 = s.copy(), s.copy()
        b = T.S(64, nm)
        s1.rename(lambda n: n == nm)
        s1.facts[T.icmp("eq", b, C64(0))] = False
        s1.ts[("ext", b)] = size
        s1.note(i, "storage allocated")
        s2.note(i, "storage allocation failed")
        if out is not None:
            r, o = e.resolve(out)
            e.mem_write(s1, r, o, 8, b)
            s1.env[i] = T.C(32, 0)
            s2.env[i] = T.C(32, 12)
        else:
            s1.env[i] = b
            s2.env[i] = C64(0)
        return [s1, s2]

    def free(self, e, s, i, p, what):
        self.ob()
        if self.phase == 0 or T.isc(p) and p[2] == 0:
            return [s]
        k = s.decide(T.icmp("eq", p, C64(0)))
        if k is True:
            return [s]
        if k is None:
            z = s.copy()
            if z.assume(T.icmp("eq", p, C64(0)), True):
                pass
            s.assume(T.icmp("eq", p, C64(0)), False)
        else:
            z = None
        if not s.ts.get(("held",)) and self.phase:
            self.find("A13", "unlocked-access", s, i, "%s of bookkeeping memory without holding the internal lock" % what)
        if s.ts.get(("freed", p)):
            self.find("A13", "double-free", s, i, "%s of memory that was already freed" % what)
        b = base_of(p)
        isbuf = b is not None and b[1] == C64(0)
        if isbuf != (what == "free"):
            self.find("A13", "wrong-deallocation", s, i, "%s of an object that was obtained by the other allocator" % what)
        src = None
        if isbuf:
            src = (None, None)
        elif isinstance(p[2], tuple) and p[2][0] == "cell":
            src = (p[2][1], p[2][2])
            zz = self.sizes(s)
            for ent in reversed(s.ts.get(("log", src[0]), ())):
                # the pointer was taken out of the table before its object is deleted
                if ent[0] == "c" and zz.eq(lin(ent[1]), lin(src[1])):
                    if ent[3] != p:
                        src = (src[0], None)
                    break
            if self.phase:
                self.free_entry(e, s, i, p)
        elif p == A1:
            src = self.entry_cell()
            self.free_entry(e, s, i, p)
        elif isinstance(p[2], tuple) and p[2][0] == "OBJ":
            src = (None, None)
        else:
            raise Incomplete("%s of %s" % (what, T.show(p)))
        s.ts[("freed", p)] = src
        s.note(i, what)
        return [s] + ([z] if z is not None else [])

    def entry_cell(self):
        return (None, None)

    def free_entry(self, e, s, i, p):
        """only spare entries (at or above the current size) may be deleted"""
        b = p[2][1] if isinstance(p[2], tuple) and p[2][0] == "cell" else None
        if b is None:
            return
        z = self.sizes(s)
        off = p[2][2]
        for s2, N in self.read_cell(e, s, b, C64(self.R.size), 8):
            rel = lsub(lin(off), lin(T.add(C64(self.R.pa), T.scale(self.cell0(b, self.R.cap), 8))))
            if not self.sizes(s2).le(lin(T.scale(N, 8)), rel):
                self.find("A13", "live-entry-deleted", s2, i, "a wait state is deleted whose table index is not provably at or above the table's size: a waiter may still use it")

    # ------------------------------------------------------------ clocks
    def gettime(self, e, s, i, args):
        s2 = s.copy()
        s = s.copy()
        for nm in (("NOWS", i.idx), ("NOWN", i.idx)):
            s.rename(lambda n: n == nm)
        a, b = T.S(64, ("NOWS", i.idx)), T.S(64, ("NOWN", i.idx))
        reg, off = e.resolve(args[1])
        e.mem_write(s, reg, off, 8, a)
        e.mem_write(s, reg, off + 8, 8, b)
        s.env[i] = T.C(32, 0)
        s.ts[("now",)] = T.add(T.scale(a, NS), b)
        s.ts[("nowclk",)] = args[0]
        s.ts[("fresh",)] = True
        first = not s.ts.get(("clkok",))
        s.ts[("clkok",)] = True
        if not first:
            return [s]
        s2.env[i] = T.C(32, 0xffffffff)
        e.mem_write(s2, ("L", "errno", 0), 0, 4, T.C(32, 22))
        return [s, s2]

    # ------------------------------------------------------------ futexes
    def syscall(self, e, s, i, args):
        if not T.isc(args[0]) or args[0][2] != 202:
            raise Incomplete("system call %s" % T.show(args[0]))
        if not T.isc(args[2]):
            for c in conditions(args[2]):
                out = []
                for v in (True, False):
                    s2 = s.copy()
                    if s2.assume(c, v):
                        a2 = list(args)
                        a2[2] = choose(args[2], c, v)
                        out += self.syscall(e, s2, i, a2)
                return out
            raise Incomplete("futex operation %s" % T.show(args[2]))
        op = args[2][2]
        cmd, private, rt = op & 0x7f, bool(op & 128), bool(op & 256)
        reg, off = e.resolve(args[1])
        self.ob()
        n = T.trunc(args[3], 32) if args[3][1] > 32 else args[3]
        mutex = is_pool_entry(reg) and (self.phase == 0 or off == self.R.mutex)
        if mutex:
            self.futex_flags("mutex", private, s, i)
            if cmd == 1:
                return self.wake_mutex(e, s, i, n)
            if cmd in (0, 9):
                return self.sleep_mutex(e, s, i, n, args)
            raise Incomplete("futex command %d on the mutex" % cmd)
        if reg[0] == "P" and not is_pool_entry(reg):
            self.nullcheck(s, i, reg)
            self.futex_flags("cond", private, s, i)
            if self.phase and off != self.R.cond:
                self.find("A12", "wrong-futex", s, i, "a futex operation on a field that is not the notification word")
            s.ts[("condoff",)] = off
            if cmd in (0, 9):
                return self.sleep_cond(e, s, i, reg, off, cmd, rt, n, args)
            if cmd in (1, 3, 4):
                return self.notify_futex(e, s, i, reg, cmd, n, args, private)
        raise Incomplete("futex command %d on %s" % (cmd, reg))

    def futex_flags(self, which, private, s, i):
        k = self.R.private.setdefault(which, private)
        if k != private:
            self.find("A09" if which == "mutex" else "A12", "futex-flags", s, i, "sleepers and wakers of the same futex disagree on the process-private flag")

    def wake_mutex(self, e, s, i, n):
        nm = ("woken", i.idx, i.block.fn.name)
        s.rename(lambda x: x == nm)
        # waking on a valid address does not fail
        r = T.zext(T.S(31, nm), 64)
        s.env[i] = r
        s.ts[("wake",)] = r
        s.note(i, "futex wake")
        self.ev("wake-ups")
        if self.phase == 0:
            s.ts[("woke0",)] = True
            return [s]
        o = s.ts.get(("owes",))
        if o:
            if not T.isc(n) or T.sval(n) < 1 or (o == "all" and n[2] != INT_MAX):
                self.find("A09", "too-few-woken", s, i, "the release wakes %s thread(s)" % T.show(n))
            else:
                s.ts.pop(("owes",))
        return [s]

    def sleep_mutex(self, e, s, i, v, args):
        self.ev("mutex sleeps judged")
        if self.phase == 0:
            self.mwaits.append(v)
        else:
            if s.ts.get(("held",)):
                self.find("A26", "sleep-with-lock", s, i, "the thread blocks on the mutex while it holds it")
            m, k = kbits(v)
            L, C = self.R.L, self.R.C
            if m & L != L or k & L != L:
                self.find("A09", "sleep-on-free-lock", s, i, "the thread may block although the value it compares with does not have the lock bit set")
            if m & C != C or k & C != C:
                self.find("A09", "sleep-uncontended", s, i, "the thread may block without the contention mark in the word: the release will not wake it")
            if not (T.isc(args[4]) and args[4][2] == 0):
                raise Incomplete("timed mutex wait")
            if s.ts.get(("owes",)):
                self.find("A09", "no-wake", s, i, "the thread blocks while it owes a wake-up to others")
        s.env[i] = T.S(64, ("fw", i.idx, i.block.fn.name))
        s.note(i, "futex wait on the mutex")
        return [s]

    def sleep_cond(self, e, s, i, reg, off, cmd, rt, v, args):
        self.ev("waits on the notification word judged")
        self.stale(s)
        if self.phase == 0:
            self.cwaits.append((off, s.ts.get(("wsw", ("P", A1)), ())))
            return []
        else:
            if s.ts.get(("held",)):
                self.find("A26", "sleep-with-lock", s, i, "the thread blocks in a wait while it holds the internal lock")
            if s.ts.get(("owes",)):
                self.find("A09", "no-wake", s, i, "the thread blocks while it owes a wake-up of the mutex it released")
            p = s.ts.get(("prev0",))
            if p is None or v != p:
                self.find("A12", "wait-wrong-expected", s, i, "the kernel compares the notification word with %s, must be its value read under the lock before the release (%s): a notify in between is lost" % (T.show(v), T.show(p) if p else "never read"))
            l = s.ts.get(("lastc",))
            if s.ts.get(("changed",)) or p is not None and l is not None and s.decide(T.icmp("eq", l, p)) is False:
                self.find("A12", "wait-after-notify", s, i, "the thread blocks again on a path where it has seen that it was notified")
            if reg[1] != A1:
                self.find("A12", "wrong-futex", s, i, "the thread blocks on another object's notification word")
        timed = not (T.isc(args[4]) and args[4][2] == 0)
        if cmd == 9:
            m = T.trunc(args[6], 32) if args[6][1] > 32 else args[6]
            if not (T.isc(m) and m[2] == 0xffffffff):
                self.find("A12", "futex-bitset", s, i, "the wait uses a mask not every wake-up matches")
        if self.phase:
            self.timeout(e, s, i, cmd, rt, args[4], timed)
        out = []
        for err in [0, E_AGAIN, E_INTR] + ([E_TIMEDOUT] if timed else []) + ([E_NOSYS] if cmd == 9 and not s.ts.get(("slept",)) else []):
            s2 = s.copy()
            if err != E_NOSYS:
                s2.ts[("slept",)] = True
                s2.ts[("fresh",)] = False
                s2.ts[("nsleep",)] = min(3, s2.ts.get(("nsleep",), 0) + 1)
            s2.ts.pop(("lastc",), None)
            if err == E_AGAIN:
                s2.ts[("changed",)] = True
            s2.ts[("to",)] = (cmd == 9 or self.fname == "wait_for") if err == E_TIMEDOUT else False
            if err:
                e.mem_write(s2, ("L", "errno", 0), 0, 4, T.C(32, err))
            s2.env[i] = T.C(64, (1 << 64) - 1 if err else 0)
            s2.note(i, "futex wait: " + {0: "woken", E_AGAIN: "already notified", E_INTR: "interrupted", E_TIMEDOUT: "timed out", E_NOSYS: "ENOSYS"}[err])
            out.append(s2)
        return out

    def timeout(self, e, s, i, cmd, rt, ptr, timed):
        f = self.fname
        if f == "wait":
            if timed:
                self.find("A12", "unexpected-timeout", s, i, "an untimed wait blocks with a timeout")
            return
        if not timed:
            self.find("A12", "no-timeout", s, i, "a timed wait blocks without a timeout")
            return
        reg, off = e.resolve(ptr)
        if off is None or not isinstance(off, int):
            raise Incomplete("timespec address")
        sec, nsec = e.mem_read(s, reg, off, 8), e.mem_read(s, reg, off + 8, 8)
        tot = T.add(T.scale(sec, NS), nsec)
        ok, n, cex = sampled(s, lambda E: 0 <= E(nsec) < NS and E(sec) >= 0, (sec, nsec), "ts")
        self.sampled += n
        if ok is not True and reg != ("P", A3):
            self.find("A12", "bad-timespec", s, i, "the timeout passed to the system is not normalised or negative (%s)" % cex)
        ABS = T.add(T.scale(T.S(64, ("TSS", 0)), NS), T.S(64, ("TSN", 0)))
        if cmd == 9:
            clk = T.S(32, ("arg", 2))
            if f != "wait_until":
                self.find("A12", "wrong-clock", s, i, "a relative wait blocks until an absolute time")
                return
            if possible(s, clk) != {0 if rt else 1}:
                self.find("A12", "wrong-clock", s, i, "the wait blocks on the %s clock on a path where the caller's clock may be another one" % ("realtime" if rt else "monotonic"))
            want = ABS
        elif f == "wait_until":
            now = s.ts.get(("now",))
            if not s.ts.get(("fresh",)) or now is None:
                self.find("A12", "timeout-not-recomputed", s, i, "the relative timeout was not recomputed from a clock reading made since the thread last slept")
                return
            if s.ts.get(("nowclk",)) != T.S(32, ("arg", 2)):
                self.find("A12", "wrong-clock", s, i, "the remaining time is computed from another clock than the caller's")
            want = T.sub(ABS, now)
        else:
            want = T.S(64, "DUR")
            if s.ts.get(("nsleep",)):
                self.find("A12", "timeout-not-recomputed", s, i, "the wait blocks again for the whole relative timeout")
        if tot == want:
            return
        ok, n, cex = sampled(s, lambda E: E(tot) == E(want), (tot, want), "eq")
        self.sampled += n
        if ok is not True:
            self.find("A12", "wrong-timeout", s, i, "the wait's timeout is %s, must be %s (differs for %s)" % (T.show(tot), T.show(want), cex))

    def notify_futex(self, e, s, i, reg, cmd, n, args, private):
        self.ev("wake-ups of waiters judged")
        p = s.ts.get(("bump",))
        if self.phase:
            if p != reg[1]:
                self.find("A12", "wake-before-change", s, i, "waiters are woken before the notification word was changed: one about to block sleeps on")
        k1 = T.sval(n) if T.isc(n) else None
        k2 = 0
        if cmd in (3, 4):
            v2 = T.trunc(args[4], 32)
            k2 = T.sval(v2) if T.isc(v2) else None
            r2, o2 = e.resolve(args[5])
            if not (r2 == ("P", A0) and (self.phase == 0 or o2 == self.R.mutex)):
                self.find("A12", "requeue-target", s, i, "waiters are moved to something that is not the mutex of this lock")
            if k2:
                s.ts[("rq",)] = True
                self.futex_flags("mutex", private, s, i)
            if cmd == 4:
                raise Incomplete("FUTEX_CMP_REQUEUE")
        if k1 is None or k2 is None or k1 < 0 or k2 < 0:
            self.find("A12", "bad-count", s, i, "waiters are woken with an invalid count (%s, %s)" % (k1, k2))
            k1, k2 = 0, 0
        s.ts[("ntf",)] = max(s.ts.get(("ntf",), 0), max(k1, k2))
        r = T.S(64, ("rqn", i.idx))
        s.env[i] = r
        s.note(i, "futex %s" % ("requeue" if cmd != 1 else "wake"))
        return [s]

    # ------------------------------------------------------------ exits
    def on_return(self, e, s, rv, i):
        self.finals.append((s, rv, i))

    def on_unwind(self, e, s, i):
        pass


def within(nm, n):
    """a symbol's name that itself speaks about symbol nm"""
    if not isinstance(n, tuple):
        return False
    return any(x == nm or within(nm, x) for x in n)


def possible(s, x):
    """small values of x not excluded by the facts that speak about x alone (None stands for any other value)"""
    fs = [(t, v) for t, v in s.facts.items() if T.symbols(t) == T.symbols(x)]
    out = set()
    for k in list(range(-2, 40)) + [1 << 20, -(1 << 20)]:
        try:
            if all(bool(evalterm.ev(t, lambda y: k & ((1 << y[1]) - 1), {})) == v for t, v in fs):
                out.add(k)
        except evalterm.Unknown:
            return None
    return out


def conditions(t):
    """conditions of the selections inside a term"""
    if t[0] == "sel":
        return [t[2]]
    if t[0] in ("zext", "sext") and t[2][1] == 1:
        return [t[2]]
    for x in t[2:]:
        if isinstance(x, tuple):
            for y in ([x] if x and isinstance(x[0], str) else [z[1] if isinstance(z, tuple) and len(z) == 2 and isinstance(z[0], int) else z for z in x]):
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    r = conditions(y)
                    if r:
                        return r
    return []


def choose(t, c, v):
    if t == c:
        return T.TRUE if v else T.FALSE
    if t[0] == "s":
        return t
    return T.subst_children(t, lambda x: choose(x, c, v))


def halves(a, b):
    """two sides of a == b, divided by 8 when both are multiples"""
    d = T.sub(a, b)
    k, m = lin(d)
    if k % 8 == 0 and all(c % 8 == 0 for c in m.values()):
        x = C64(k // 8)
        for t, c in m.items():
            x = T.add(x, T.scale(t, c // 8))
        # x == 0  as  positive == negative part
        return x, C64(0)
    return a, b


def woke_none(s, w):
    for t in (T.icmp("eq", T.trunc(w, 32), T.C(32, 0)), T.icmp("eq", T.and_(w, T.C(64, 0xffffffff)), C64(0)), T.icmp("eq", w, C64(0))):
        if s.decide(t) is True:
            return True
    if w[0] == "zext" and w[2][0] == "s":
        p = possible(s, w[2])
        return p is not None and p <= {0, -1, -2, -(1 << 20)} and 0 in p
    return False


def ticks(old, new, rest):
    """every release changes the bits other than the two flags"""
    d = T.sub(new, old)
    if T.isc(d):
        # adding d to the word changes the other bits for every old word iff d, with the flags' own change removed, is a
        # non-zero multiple of the lowest of those bits
        lowest = rest & -rest
        m, v = kbits(old)
        om, ov = kbits(new)
        flags = ~rest & 0xffffffff
        if m & flags == flags and om & flags == flags:
            k = (d[2] - (ov & flags) + (v & flags)) & 0xffffffff
            return k != 0 and k % lowest == 0
    return False


def describe(region, off):
    if region[0] == "B":
        return "the waiter table"
    if is_pool_entry(region):
        return "lock pool entry field at %s" % (off,)
    return "a wait state"


def induction(fn):
    """loop header -> [(phi, init, step, exclusive bound or None)] for 64-bit counters stepping upwards; counters of
    small constant range are left to be unrolled"""
    out = {}
    order = {b.idx: n for n, b in enumerate(fn.blocks)}
    for b in fn.blocks:
        for phi in b.insts:
            if phi.op != "phi":
                break
            if tybits(phi.ty) != 64 or phi.ty.kind != "int":
                continue
            nexts = []
            inits = []
            for v, pb in zip(phi.ops, phi.attr["blocks"]):
                if v.kind == "inst" and v.op == "add" and v.ops[0] is phi and v.ops[1].kind == "int" and v.ops[1].val > 0:
                    nexts.append((v, pb))
                else:
                    inits.append(v)
            if not nexts or not inits:
                continue
            bound = None
            for nx, pb in nexts:
                t = pb.term
                if t.op == "br" and t.ops and t.ops[0].kind == "inst" and t.ops[0].op == "icmp":
                    c = t.ops[0]
                    if c.ops[0] is nx and nx.ops[1].val == 1 and len(nexts) == 1:
                        pr = c.attr["pred"]
                        back = t.attr["succs"].index(b) if b in t.attr["succs"] else None
                        if pr == "eq" and back == 1 or pr == "ne" and back == 0 or pr == "ult" and back == 0:
                            bound = c.ops[1]
            if all(v.kind == "int" for v in inits) and bound is not None and bound.kind == "int" and bound.val <= 16:
                continue
            if bound is not None and bound.kind == "inst" and bound.block is b:
                bound = None
            out.setdefault(b.idx, []).append((phi, inits, nexts[0][0].ops[1].val, bound))
    return out
