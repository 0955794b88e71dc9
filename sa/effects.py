"""Abstract domain for one atomic operation: what the operation does to the one
shared object, as seen by every other thread.

Typestate per path:
  lin   the single linearising update (kind, observed value E, written value N, ordering bits)
  obs   last observation (value, kind, ordering bits)
  held  lock-pool lock currently held
Every observation of the object made outside a lock yields a value nobody can
rely on later: the symbol OLD is re-issued at each observation and everything
derived from an older one decays to 'unknown'.  So a path can only satisfy its
specification when the value it based its decision on is the value the atomic
update itself observed."""
from . import terms as T
from .engine import Engine, State, Domain, Incomplete, tybits
from .llvm import demangle, where, callee_name
from .cases import TYPES, BITS

PADS_SPELL = {"void const*": "const void*"}
P64 = 64
LP = "boost::atomics::detail::lock_pool::"


# padding bytes of the types the generated wrappers use, by type name
PADS = {}
for _ty in TYPES.values():
    if _ty.cat == "flag":
        continue
    PADS[_ty.cpp] = list(_ty.pads) + ([(_ty.vbits // 8, _ty.size - _ty.vbits // 8)] if _ty.vbits < 8 * _ty.size else [])


def short(n):
    d = demangle(n) or ""
    return d


def bits_of(order):
    return {"na": 0, "vol": 0, "bulk": 0, "mov": 0, "unordered": 0}.get(order, BITS.get(order, 0))


class Finding:
    def __init__(self, rule, msg, loc, trail=(), stale=False):
        self.rule, self.msg, self.loc, self.trail, self.stale = rule, msg, loc, trail, stale

    def where(self):
        return " < ".join("%s:%d" % (f, l) for f, l in self.loc if l) or "?"

    def libloc(self):
        for f, l in self.loc:
            if "boost/atomic" in f or "lock_pool" in f:
                return "%s:%d" % (f, l)
        return self.where()


class OpDomain(Domain):
    def __init__(self, shared, size, oldterm, plain_atomic):
        self.shared = shared
        self.size = size
        self.W = 8 * size
        self.oldterm = oldterm
        self.plain = plain_atomic
        self.findings = []
        self.finals = []
        self.locks = set()
        self.unknown_calls = set()
        self.access_kinds = set()
        self.oldnames = T.symbols(oldterm)

    def find(self, rule, s, i, msg):
        self.findings.append(Finding(rule, msg, i.loc if i is not None else (), s.trail))

    def is_shared(self, e, s, region):
        return region == self.shared

    # ---- observations
    def observe(self, e, s, i, regs=None):
        if s.ts.get("lin"):
            nm = ("post", i.idx)
            s.rename(lambda n: n == nm)
            return T.S(self.W, nm)
        names = self.oldnames
        o = s.ts.get("obs")
        if o is not None:
            def bad(t):
                return bool(T.symbols(t) & names)
            if bad(o[0]):
                s.ts.pop("obs")
        s.rename(lambda n: n in names)
        return self.oldterm

    def whole(self, e, s, i, off, size, what):
        if off == 0 and size == self.size:
            return True
        return False

    def fencebits(self, s):
        return s.ts.get("pre", 0)

    def acc_load(self, e, s, i, region, off, size, order, atomic):
        if not self.is_shared(e, s, region):
            return [(s, e.mem_read(s, region, off, size))]
        s = s.copy()
        if s.ts.get("held"):
            self.access_kinds.add("locked")
            return [(s, e.mem_read(s, region, off, size))]
        if off is None or off < 0 or off + size > self.size:
            self.find("out-of-object-access", s, i, "load of %d byte(s) at offset %s of a %d byte object" % (size, off, self.size))
        if not self.whole(e, s, i, off, size, "load"):
            self.access_kinds.add("partial-load")
            nm = ("part", i.idx, off)
            s.rename(lambda n: n == nm)
            return [(s, T.S(8 * size, nm))]
        old = self.observe(e, s, i)
        mov = False
        if atomic and order != "mov":
            kind = "atomic"
            self.access_kinds.add("atomic-load")
        elif self.plain and size in (1, 2, 4, 8) and order in ("vol", "mov", "bulk") or (order == "mov" and atomic):
            kind = "atomic"
            mov = True
            self.access_kinds.add("aligned-mov")
        else:
            kind = "plain"
            self.access_kinds.add("plain-load")
        s.ts["obs"] = (old, kind, bits_of(order), mov)
        s.note(i, "observe(%s,%s)" % (kind, order))
        return [(s, old)]

    def setlin(self, s, i, kind, E, N, bits, mov=False):
        if s.ts.get("lin"):
            self.find("more-than-one-update", s, i, "a second modification of the object on the same call (first at %s)" % (s.ts["lin"][6],))
        pre = s.ts.get("pre", 0)
        if pre & 2:
            bits |= 2
        if mov and s.ts.get("bar"):
            bits |= 2
        s.ts["lin"] = (kind, E, N, bits, mov, None, "%s" % (Finding("", "", i.loc).libloc(),))
        s.note(i, "update(%s)" % kind)

    def acc_store(self, e, s, i, region, off, size, v, order, atomic):
        s = s.copy()
        if not self.is_shared(e, s, region):
            e.mem_write(s, region, off, size, v)
            return [s]
        if s.ts.get("held"):
            self.access_kinds.add("locked")
            if off is None or off < 0 or off + size > self.size:
                self.find("out-of-object-access", s, i, "store of %d byte(s) at offset %s of a %d byte object" % (size, off, self.size))
            e.mem_write(s, region, off, size, v)
            s.ts["wrote"] = True
            return [s]
        if not (off == 0 and size == self.size):
            self.find("torn-store", s, i, "store of %d byte(s) at offset %s of a %d byte atomic object without a lock" % (size, off, self.size))
        mov = False
        if not (atomic and order != "mov"):
            if self.plain and size in (1, 2, 4, 8) and order in ("vol", "mov") or (order == "mov" and atomic):
                mov = True
                self.access_kinds.add("aligned-mov")
            else:
                self.find("non-atomic-store", s, i, "the object is written by a plain, non-atomic store without a lock")
        else:
            self.access_kinds.add("atomic-store")
            mov = self.plain and size in (1, 2, 4, 8)
        self.setlin(s, i, "store", None, v, bits_of(order), mov)
        return [s]

    def acc_rmw(self, e, s, i, region, off, size, f, order, locked=True):
        s = s.copy()
        if not self.is_shared(e, s, region):
            old = e.mem_read(s, region, off, size)
            e.mem_write(s, region, off, size, f(old))
            return [(s, old)]
        if s.ts.get("held"):
            old = e.mem_read(s, region, off, size)
            e.mem_write(s, region, off, size, f(old))
            s.ts["wrote"] = True
            return [(s, old)]
        if not (off == 0 and size == self.size):
            self.find("torn-rmw", s, i, "read-modify-write of %d byte(s) at offset %s of a %d byte atomic object" % (size, off, self.size))
            return [(s, T.S(8 * size, ("part", i.idx)))]
        if not locked:
            self.find("non-atomic-rmw", s, i, "read-modify-write instruction without lock semantics")
        self.access_kinds.add("rmw")
        old = self.observe(e, s, i)
        self.setlin(s, i, "rmw", old, f(old), bits_of(order))
        s.ts["obs"] = (old, "atomic", bits_of(order), False)
        return [(s, old)]

    def aged(self, t):
        """the term t once a new observation is made, None when it cannot be expressed any more"""
        return None if T.symbols(t) & self.oldnames else t

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        if not self.is_shared(e, s, region):
            return Domain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        s = s.copy()
        if not (off == 0 and size == self.size):
            self.find("torn-cas", s, i, "compare-exchange of %d byte(s) at offset %s of a %d byte atomic object" % (size, off, self.size))
        if s.ts.get("held"):
            return Domain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        out = []
        self.access_kinds.add("cas")
        s1 = s.copy()
        # success: the value observed is exp
        if exp == new:
            s1.ts["obs"] = (exp, "atomic", bits_of(so), False)
            s1.note(i, "observe(cas,success)")
        else:
            self.setlin(s1, i, "cas", exp, new, bits_of(so))
            s1.ts["obs"] = (exp, "atomic", bits_of(so), False)
        out.append((s1, True, exp))
        s2 = s.copy()
        # failure: fresh observation; exp may mention the previous observation, which decays
        neq_known = None
        obs = self.observe(e, s2, i)
        aged = self.aged(exp)
        s2.ts["obs"] = (obs, "atomic", bits_of(fo), False)
        s2.note(i, "observe(cas,failure%s)" % (",may be spurious" if weak else ""))
        ok = True
        if not weak and aged is not None and not s2.ts.get("lin"):
            ok = s2.assume(T.icmp("eq", obs, aged), False)
        if weak:
            s2.ts["weakfail"] = True
        else:
            s2.ts.pop("weakfail", None)
        if ok:
            out.append((s2, False, obs))
        return out

    # ---- fences
    def on_fence(self, e, s, i, order, st):
        b = bits_of(order)
        if st:
            return self.on_compiler_barrier(e, s, i)
        self._after(s, b)
        s.ts["pre"] = s.ts.get("pre", 0) | b
        s.ts["bar"] = True
        if b == 7:
            self._fullfence(s)
        return None

    def _after(self, s, b):
        """an acquire fence after the access strengthens it"""
        o = s.ts.get("obs")
        if o and b & 1:
            s.ts["obs"] = (o[0], o[1], o[2] | 1, o[3])
        l = s.ts.get("lin")
        if l and b & 1:
            s.ts["lin"] = l[:3] + (l[3] | 1,) + l[4:]

    def _fullfence(self, s):
        o = s.ts.get("obs")
        if o and o[3]:
            # every access of the configuration is followed by a full fence before the next one
            s.ts["obs"] = (o[0], o[1], o[2] | 7, o[3])
        l = s.ts.get("lin")
        if l and l[4]:
            # x86: plain store followed by a full barrier is sequentially consistent when it was a release
            if l[3] & 2:
                s.ts["lin"] = l[:3] + (7,) + l[4:]

    def on_hw_fence(self, e, s, i, mn):
        if mn == "mfence":
            self._fullfence(s)
        return None

    def on_compiler_barrier(self, e, s, i):
        s.ts["bar"] = True
        o = s.ts.get("obs")
        if o and o[3]:
            # x86-TSO: loads are not reordered with later accesses; the barrier pins the compiler
            s.ts["obs"] = (o[0], o[1], o[2] | 1 | 4, o[3])
        return None

    # ---- calls
    def pre_call(self, e, s, i, name, args):
        d = short(name)
        if not d.startswith(LP):
            return None
        f = d[len(LP):].split("(")[0]
        s = s.copy()
        if f in ("short_lock", "long_lock"):
            if s.ts.get("held"):
                self.find("nested-lock", s, i, "%s while a pool lock is already held" % f)
            self.locks.add((f, args[0]))
            old = self.observe(e, s, i)
            s.mem[self.shared] = ((0, self.size, old),)
            r = T.S(64, ("lk", i.idx))
            s.ts["held"] = (r, old, args[0])
            s.ts["wrote"] = False
            s.env[i] = r
            s.note(i, f)
            return [s]
        if f == "unlock":
            h = s.ts.get("held")
            if not h:
                self.find("unlock-without-lock", s, i, "unlock without a held lock")
                return [s]
            if args[0] != h[0]:
                self.find("unlock-wrong-lock", s, i, "unlock of something other than the lock that was taken")
            n = e.mem_read(s, self.shared, 0, self.size)
            s.mem.pop(self.shared, None)
            s.ts.pop("held")
            if s.ts.pop("wrote", False):
                self.setlin(s, i, "locked", h[1], n, 7)
                s.ts["obs"] = (h[1], "locked", 7, False)
            else:
                s.ts["obs"] = (h[1], "locked", 7, False)
            s.note(i, "unlock")
            return [s]
        return None

    def on_call(self, e, s, i, name, args):
        d = short(name) if name else "<indirect call>"
        # anything that receives the address of the object or runs while the lock is held is not understood
        bad = False
        for a in args:
            if a is not None and a[0] != "agg":
                reg, _ = e.resolve(a)
                if reg == self.shared:
                    bad = True
        if d.startswith("verif_clear_padding") or d.startswith("void verif_clear_padding"):
            reg, off = e.resolve(args[0])
            s = s.copy()
            s.note(i, "clear_padding")
            s.ts["cleared"] = s.ts.get("cleared", frozenset()) | {reg}
            if bad:
                self.find("non-atomic-store", s, i, "padding of the shared object is cleared by a non-atomic access")
                return [s]
            ty = d.split("verif_clear_padding<", 1)[1].split(">(")[0]
            pads = PADS.get(PADS_SPELL.get(ty, ty))
            if pads is None or off is None:
                raise Incomplete("padding of %s" % ty)
            for o, n in pads:
                e.mem_write(s, reg, off + o, n, T.C(8 * n, 0))
            return [s]
        if bad:
            self.find("object-escapes", s, i, "the address of the object is passed to %s" % d)
        self.unknown_calls.add(d)
        return None

    def on_return(self, e, s, rv, i):
        if s.ts.get("held"):
            self.find("lock-not-released", s, i, "return with the pool lock still held")
        self.finals.append((s, rv, i))

    def on_unwind(self, e, s, i):
        if s.ts.get("held"):
            self.find("lock-not-released", s, i, "exception leaves with the pool lock held")


class FlagDomain(OpDomain):
    """atomic_flag: only the low byte of the storage carries the flag, the rest is invariantly zero, so an access to a
    low part of the storage is an access to the whole (x86 keeps accesses of different sizes coherent)"""

    def narrow(self, e, s, region, off, size):
        return self.is_shared(e, s, region) and not s.ts.get("held") and off == 0 and 0 < size < self.size

    def acc_load(self, e, s, i, region, off, size, order, atomic):
        if self.narrow(e, s, region, off, size):
            return [(s2, T.trunc(v, 8 * size)) for s2, v in OpDomain.acc_load(self, e, s, i, region, 0, self.size, order, atomic)]
        return OpDomain.acc_load(self, e, s, i, region, off, size, order, atomic)

    def acc_store(self, e, s, i, region, off, size, v, order, atomic):
        if self.narrow(e, s, region, off, size):
            v, size = T.zext(v, self.W), self.size
        return OpDomain.acc_store(self, e, s, i, region, off, size, v, order, atomic)

    def acc_rmw(self, e, s, i, region, off, size, f, order, locked=True):
        if self.narrow(e, s, region, off, size):
            g = lambda o: T.zext(f(T.trunc(o, 8 * size)), self.W)
            return [(s2, T.trunc(v, 8 * size)) for s2, v in OpDomain.acc_rmw(self, e, s, i, region, 0, self.size, g, order, locked)]
        return OpDomain.acc_rmw(self, e, s, i, region, off, size, f, order, locked)

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        if self.narrow(e, s, region, off, size):
            return [(s2, ok, T.trunc(v, 8 * size)) for s2, ok, v in
                    OpDomain.acc_cas(self, e, s, i, region, 0, self.size, T.zext(exp, self.W), T.zext(new, self.W), so, fo, weak)]
        return OpDomain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)


class RiscMixin:
    """processors with load-linked / store-conditional and weaker ordering than x86"""

    def on_compiler_barrier(self, e, s, i):
        return None

    def _strengthen(self, s, b):
        o = s.ts.get("obs")
        if o:
            s.ts["obs"] = (o[0], o[1], o[2] | b, o[3])
        l = s.ts.get("lin")
        if l:
            s.ts["lin"] = l[:3] + (l[3] | b,) + l[4:]

    def _fullfence(self, s):
        # sequential consistency by a full barrier after every access (Arm, SPARC) or before it (PowerPC)
        if self.arch in ("arm", "sparc"):
            self._strengthen(s, 4)

    def on_risc_fence(self, e, s, i, b):
        s.note(i, "barrier")
        if b == "isync":
            # load, conditional branch on it, isync: the load is ordered before everything later
            if s.ts.get("ctrl"):
                self._strengthen(s, 1)
            return
        if b & 1:
            self._strengthen(s, 1)
        if b == 7:
            self._fullfence(s)
        s.ts["pre"] = s.ts.get("pre", 0) | (b & 2) | (4 if b == 7 and self.arch == "ppc" else 0)

    def observe(self, e, s, i, regs=None):
        s.ts.pop("ll", None)
        s.ts.pop("ctrl", None)
        if s.ts.get("lin"):
            return OpDomain.observe(self, e, s, i, regs)
        # the value observed before keeps a name of its own: a later store-conditional may depend on
        # the new value being equal to it
        names = self.oldnames
        s.rename(lambda n: n[0] == "prev" and isinstance(n, tuple))
        o = s.ts.get("obs")
        if o is not None and T.symbols(o[0]) & names:
            s.ts.pop("obs")
        s.facts = {t: v for t, v in s.facts.items() if not T.symbols(t) & names}
        s.substitute(lambda t: T.S(t[1], ("prev", t[2])) if t[2] in names else None)
        return self.oldterm

    def aged(self, t):
        if any(isinstance(n, tuple) and n[0] == "prev" for n in T.symbols(t)):
            return None
        return T.subst(t, lambda x: T.S(x[1], ("prev", x[2])) if x[2] in self.oldnames else None)

    def _pre(self, s):
        o = s.ts.get("obs")
        if o and s.ts.get("pre", 0) & 4:
            s.ts["obs"] = (o[0], o[1], o[2] | 4, o[3])

    def setlin(self, s, i, kind, E, N, bits, mov=False):
        if s.ts.get("pre", 0) & 4:
            bits |= 4
        if mov and s.ts.pop("bar", None):
            pass
        OpDomain.setlin(self, s, i, kind, E, N, bits, False)

    def acc_load(self, e, s, i, region, off, size, order, atomic):
        out = OpDomain.acc_load(self, e, s, i, region, off, size, order, atomic)
        for s2, _ in out:
            self._pre(s2)
        return out

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        out = OpDomain.acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak)
        for s2, ok, _ in out:
            self._pre(s2)
            o = s2.ts.get("obs")
            if ok and o and not s2.ts.get("lin"):
                # the value is replaced by itself: a modification after the barriers that precede it
                s2.ts["obs"] = (o[0], o[1], o[2] | s2.ts.get("pre", 0), o[3])
        return out

    def _obs(self, s, i, old, kind, bits):
        s.ts["obs"] = (old, kind, bits, False)
        self._pre(s)
        s.note(i, "observe(%s)" % kind)

    def acc_oload(self, e, s, i, region, off, size, bits):
        if not self.is_shared(e, s, region) or s.ts.get("held") or not self.whole(e, s, i, off, size, "load"):
            return self.acc_load(e, s, i, region, off, size, "mov", True)
        s = s.copy()
        old = self.observe(e, s, i)
        self.access_kinds.add("atomic-load")
        self._obs(s, i, old, "atomic", bits)
        return [(s, old)]

    def acc_ostore(self, e, s, i, region, off, size, v, bits):
        if not self.is_shared(e, s, region) or s.ts.get("held"):
            return self.acc_store(e, s, i, region, off, size, v, "mov", True)
        s = s.copy()
        if not (off == 0 and size == self.size):
            self.find("torn-store", s, i, "store of %d byte(s) at offset %s of a %d byte atomic object without a lock" % (size, off, self.size))
        self.access_kinds.add("atomic-store")
        self.setlin(s, i, "store", None, v, bits)
        return [s]

    def acc_ll(self, e, s, i, region, off, size, bits):
        s = s.copy()
        if not self.is_shared(e, s, region):
            v = e.mem_read(s, region, off, size)
            s.ts["ll"] = (v, 0, region, off, size)
            return [(s, v)]
        if not (off == 0 and size == self.size):
            self.find("torn-rmw", s, i, "load-linked of %d byte(s) at offset %s of a %d byte atomic object" % (size, off, self.size))
            return [(s, T.S(8 * size, ("part", i.idx)))]
        old = self.observe(e, s, i)
        torn = self.arch == "a64" and size == 16
        self.access_kinds.add("load-linked")
        self._obs(s, i, old, "plain" if torn else "atomic", bits)
        s.ts["ll"] = (old, bits, region, off, size)
        return [(s, old)]

    def acc_sc(self, e, s, i, region, off, size, v, bits):
        ll = s.ts.get("ll")
        if ll is None or ll[2:] != (region, off, size):
            self.find("unpaired-store-conditional", s, i, "a store-conditional that does not follow a load-linked of the same %d bytes" % size)
            ll = (T.S(8 * size, ("post", i.idx)), 0)
        ok, no = s.copy(), s.copy()
        for x in (ok, no):
            x.ts.pop("ll", None)
        if not self.is_shared(e, s, region):
            e.mem_write(ok, region, off, size, v)
            return [(ok, True), (no, False)]
        b = ll[1] | bits
        if v != ll[0]:
            self.access_kinds.add("store-conditional")
            self.setlin(ok, i, "cas", ll[0], v, b)
        self._obs(ok, i, ll[0], "atomic", b | (ok.ts.get("pre", 0) & 2))
        return [(ok, True), (no, False)]


class RiscOp(RiscMixin, OpDomain):
    pass


class RiscFlag(RiscMixin, FlagDomain):
    pass


def shared_region(kind):
    a0 = T.S(64, ("arg", 0))
    if kind in ("ref", "ipcref"):
        return ("P", T.S(64, ("mem", ("P", a0), 0)))
    return ("P", a0)


def storage_size(ty, kind):
    n = TYPES[ty].size
    if kind in ("ref", "ipcref"):
        return n
    p = 1
    while p < n:
        p *= 2
    return p if n <= 16 else n


def analyse(case, fn, plain_atomic, arch="x86", wide=0):
    """-> (domain, engine)"""
    t = TYPES[case.ty]
    size = max(storage_size(case.ty, case.kind), wide)
    W = 8 * size
    ext = T.sext if wide and t.signed and t.cat == "int" else T.zext
    if wide and t.vbits == 8 * t.size and t.cat not in ("bool", "flag"):
        # small integers kept in a word: the word is the extended value
        old = ext(T.S(t.vbits, "OLD"), W)
    elif t.cat in ("bool", "flag"):
        old = T.zext(T.S(1, "OLD"), W)
    elif t.vbits < 8 * t.size:
        # long double: invariant maintained by every update, the bits past the value are zero
        old = T.zext(T.S(t.vbits, "OLD"), W)
    else:
        old = pad(value_sym(t, "OLD", True), W)
    if arch == "x86":
        dm = (FlagDomain if t.cat == "flag" else OpDomain)(shared_region(case.kind), size, old, plain_atomic)
    else:
        dm = (RiscFlag if t.cat == "flag" else RiscOp)(shared_region(case.kind), size, old, plain_atomic)
        dm.arch = arch
    dm.ext = ext if wide and t.vbits == 8 * t.size and t.cat not in ("bool", "flag") else None
    e = Engine(fn, dm)
    st = State()
    V = value_sym(t, "V", True)
    EXP = value_sym(t, "EXP", True)
    a1, a3 = ("P", T.S(64, ("arg", 1))), ("P", T.S(64, ("arg", 3)))
    if case.argterm is not None:
        n = case.argw // 8
        st.mem[a1] = ((0, n, case.argterm),)
        dm.V = case.argterm
    elif case.argw is not None:
        st.mem[a1] = ((0, case.argw // 8, T.S(case.argw, "V")),)
        dm.V = T.S(case.argw, "V")
    else:
        seg(st, a1, t, value_sym(t, "V"), "V")
        dm.V = V
    seg(st, a3, t, value_sym(t, "EXP"), "EXP")
    dm.EXP = EXP
    dm.e = e
    e.run(st)
    return dm, e


def value_sym(t, nm, clean=False):
    """the value named nm; padding bytes inside it are arbitrary, or zero when clean"""
    if t.cat in ("bool", "flag"):
        return T.zext(T.S(1, nm), 8)
    if t.pads:
        parts, pos = [], 0
        for o, n in t.pads:
            if o > pos:
                parts.append(T.S(8 * (o - pos), "%s.%d" % (nm, pos) if pos else nm))
            parts.append(T.C(8 * n, 0) if clean else T.S(8 * n, "%s.pad%d" % (nm, o)))
            pos = o + n
        if pos < t.size:
            parts.append(T.S(8 * (t.size - pos), "%s.%d" % (nm, pos)))
        return T.concat(parts)
    return T.S(t.vbits, nm)


def seg(st, region, t, v, nm):
    n = v[1] // 8
    segs = [(0, n, v)]
    if t.size > n:
        segs.append((n, t.size - n, T.S(8 * (t.size - n), nm + ".pad")))
    st.mem[region] = tuple(segs)


def pad(v, W):
    return T.zext(v, W) if v[1] < W else v


class Verdict:
    """result of judging one case: findings by aspect"""

    def __init__(self):
        self.value = []     # wrong values / results
        self.atomic = []    # atomicity / lock discipline
        self.order = []     # ordering
        self.pad = []       # padding / tail bits
        self.undecided = []
        self.paths = 0


def same(a, b, s=None):
    if a == b:
        return True
    if s is not None and a[1] == b[1]:
        if s.decide(T.icmp("eq", a, b)) is True:
            return True
        for W in (32, 64, 128):
            # equal extensions, equal values
            if W > a[1] and s.facts and s.decide(T.icmp("eq", T.zext(a, W), T.zext(b, W))) is True:
                return True
    from . import evalterm
    if s is not None:
        m = {}
        for t, v in s.facts.items():
            if v and t[0] == "icmp" and t[2] == "eq":
                for x, y in ((t[3], t[4]), (t[4], t[3])):
                    if x[0] == "s" and x[2][0] == "prev" and isinstance(x[2], tuple) and x[2] not in T.symbols(y):
                        m[x] = y
        for x in T.leaves(a) | T.leaves(b):
            # known equal half by half
            if x not in m and isinstance(x[2], tuple) and x[2][0] == "prev":
                y = T.S(x[1], x[2][1])
                if s.decide(T.icmp("eq", x, y)) is True:
                    m[x] = y
        if m:
            a2, b2 = T.subst(a, m.get), T.subst(b, m.get)
            if (a2, b2) != (a, b):
                return True if a2 == b2 else evalterm.equal(a2, b2, s)
    return evalterm.equal(a, b, s)


def judge(case, dm, e):
    t = TYPES[case.ty]
    W = dm.W
    vb = t.vbits
    v = Verdict()
    for f in dm.findings:
        v.atomic.append(f)
    a2, a3 = ("P", T.S(64, ("arg", 2))), ("P", T.S(64, ("arg", 3)))

    def bad(lst, rule, msg, s, i, stale=False):
        loc = ()
        for txt, l in reversed(s.trail):
            loc = l
            break
        lst.append(Finding(rule, msg, loc or i.loc, s.trail, stale))

    def cmp(lst, rule, what, got, want, s, i):
        r = same(got, want, s)
        if r is True:
            return
        if r is None:
            v.undecided.append(Finding(rule, "%s: cannot relate %s to %s" % (what, T.show(got), T.show(want)), i.loc, s.trail))
            return
        bad(lst, rule, "%s is %s, must be %s" % (what, T.show(got), T.show(want)), s, i, stale_term(got))

    def padx(x):
        return dm.ext(x, W) if dm.ext is not None and x[1] < W else pad(x, W)

    mask = None
    if t.pads:
        mask = (1 << vb) - 1
        for o, n in t.pads:
            mask &= ~(((1 << (8 * n)) - 1) << (8 * o))

    def val(x):
        x = T.trunc(x, vb) if x[1] > vb else x
        return T.and_(x, T.C(vb, mask)) if mask is not None else x
    if not dm.finals:
        v.atomic.append(Finding("no-return", "no path through the operation returns", ()))
    for (s, rv, i) in dm.finals:
        v.paths += 1
        lin = s.ts.get("lin")
        obs = s.ts.get("obs")
        # on these processors a dependency orders later accesses, which is all that consume asks
        risc = dm.arch != "x86"
        rb = case.rbits or vb
        got = None
        if case.ret != "void" or case.mode == "cas":
            got = e.mem_read(s.copy(), a2, 0, rb // 8)
            if mask is not None and got[1] == vb:
                got = val(got)
        if case.mode == "load":
            if lin:
                bad(v.atomic, "load-modifies", "a load modifies the object", s, i)
            if not obs:
                bad(v.atomic, "no-observation", "the loaded value does not come from an access to the object", s, i)
                continue
            if obs[1] == "plain":
                bad(v.atomic, "non-atomic-load", "the value is read by a plain, non-atomic load", s, i)
            cmp(v.value, "result", "returned value", got, val(obs[0]), s, i)
            if not (risc and case.so == "consume"):
                need(v, case.so, 5, obs[2], s, i, bad, "load")
        elif case.mode == "store":
            if not lin:
                bad(v.atomic, "no-update", "a path through the store does not modify the object", s, i)
                continue
            cmp(v.value, "stored-value", "stored value", val(lin[2]), case.new(None, dm.V), s, i)
            tail(v, lin[2], vb, t, s, i, bad, dm.ext)
            if case.ret == "arg":
                cmp(v.value, "result", "returned value", got, dm.V, s, i)
            need(v, case.so, 6, lin[3], s, i, bad, "store")
        elif case.mode == "rmw":
            V = dm.V if case.const is None else T.C(case.argw or vb, case.const)
            if not lin:
                if obs is None:
                    bad(v.atomic, "no-update", "a path through the operation does not access the object", s, i)
                    continue
                if obs[1] == "plain":
                    bad(v.atomic, "no-update", "a path through the operation returns without an atomic update (value from a plain load)", s, i)
                    continue
                E = N = obs[0]
                bits = obs[2]
                want = case.new(val(E), V)
                if same(want, val(E), s) is not True:
                    bad(v.atomic, "no-update", "a path through the operation returns without updating the object", s, i)
                    continue
            else:
                E, N, bits = lin[1], lin[2], lin[3]
                if lin[0] == "store":
                    bad(v.atomic, "update-not-rmw", "the update is a separate store, not an atomic read-modify-write", s, i)
                    continue
            O = val(E)
            newv = case.new(O, V)
            cmp(v.value, "new-value", "value written", val(N), newv, s, i)
            tail(v, N, vb, t, s, i, bad, dm.ext)
            if case.ret == "old":
                cmp(v.value, "result", "returned value", got, O, s, i)
            elif case.ret == "new":
                cmp(v.value, "result", "returned value", got, newv, s, i)
            elif case.ret == "nz":
                cmp(v.value, "result", "returned value", got, T.zext(T.lnot(T.icmp("eq", newv, T.C(newv[1], 0))), 8), s, i)
            elif case.ret == "bit":
                cmp(v.value, "result", "returned value", got, T.zext(T.bit(O, T._shamt(V)), 8), s, i)
            need(v, case.so, 7, bits, s, i, bad, case.op)
        elif case.mode == "cas":
            g = got
            if not T.isc(g):
                g1 = T.icmp("eq", g, T.C(g[1], 0))
                opts = []
                for want in (False, True):
                    s2 = s.copy()
                    if s2.assume(g1, want):
                        opts.append((s2, not want))
            else:
                if g[2] not in (0, 1):
                    bad(v.value, "result", "the result is not a bool", s, i)
                opts = [(s, bool(g[2]))]
            for s2, ok in opts:
                ee = val(e.mem_read(s2.copy(), a3, 0, (vb + 7) // 8))
                if ok:
                    if not lin:
                        # a success that does not write is only right when desired == expected
                        bad(v.atomic, "no-update", "compare-exchange reports success on a path that does not update the object", s2, i)
                        continue
                    if lin[0] in ("store", "rmw"):
                        bad(v.atomic, "update-not-cas", "compare-exchange updates the object unconditionally", s2, i)
                        continue
                    cmp(v.value, "cas-compare", "value the update was conditional on", lin[1], padx(dm.EXP), s2, i)
                    cmp(v.value, "cas-desired", "value written", val(lin[2]), dm.V, s2, i)
                    tail(v, lin[2], vb, t, s2, i, bad, dm.ext)
                    cmp(v.value, "cas-expected", "expected after success", ee, dm.EXP, s2, i)
                    need(v, case.so, 7, lin[3], s2, i, bad, case.op)
                else:
                    if lin:
                        bad(v.atomic, "cas-fail-writes", "compare-exchange reports failure on a path that updated the object", s2, i)
                        continue
                    if risc and (not obs or obs[1] == "plain") and not case.strong and same(ee, dm.EXP, s2) is True:
                        # a spurious failure that leaves the expected value as it was
                        continue
                    if not obs or obs[1] == "plain":
                        bad(v.atomic, "cas-fail-observation", "compare-exchange fails without an atomic observation of the object", s2, i)
                        continue
                    cmp(v.value, "cas-expected", "expected after failure", ee, val(obs[0]), s2, i)
                    if case.strong and s2.decide(T.icmp("eq", obs[0], padx(dm.EXP))) is not False:
                        bad(v.value, "cas-spurious", "compare_exchange_strong can fail although the object held the expected value", s2, i)
                    if not (risc and case.fo == "consume"):
                        need(v, case.fo, 5, obs[2], s2, i, bad, case.op + " (failure)")
    return v


def stale_term(t):
    """the value depends on something that was not observed by the atomic access itself"""
    return any(isinstance(n, tuple) and n and n[0] in ("top", "topm", "part", "post", "prev") for n in T.symbols(t))


def need(v, order, mask, have, s, i, bad, what):
    want = BITS[order] & mask
    if want & ~have:
        names = {0: "relaxed", 1: "acquire", 2: "release", 3: "acq_rel", 7: "seq_cst", 4: "seq_cst", 5: "seq_cst", 6: "seq_cst"}
        bad(v.order, "order-too-weak", "%s requested with memory_order_%s but the access is only %s" % (what, order, names.get(have, have)), s, i)


def tail(v, N, vb, t, s, i, bad, ext=None):
    if ext is not None and N[1] > vb:
        if same(N, ext(T.trunc(N, vb), N[1]), s) is not True:
            bad(v.pad, "tail-not-extended", "the stored word %s is not the extended value" % T.show(N), s, i)
    elif N[1] > vb:
        x = T.extract(N, vb, N[1] - vb)
        if not (T.isc(x) and x[2] == 0):
            bad(v.pad, "tail-not-zero", "bits of the stored representation that do not belong to the value are %s, must be 0" % T.show(x), s, i)
    for o, n in t.pads:
        x = T.extract(N, 8 * o, 8 * n)
        if not (T.isc(x) and x[2] == 0) and same(x, T.C(8 * n, 0), s) is not True:
            bad(v.pad, "padding-not-zero", "padding bytes %d..%d of the stored value are %s, must be 0" % (o, o + n - 1, T.show(x)), s, i)
