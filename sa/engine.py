"""Forward abstract interpretation of one LLVM function (plus non-inlined callees).

The abstract state is  (typestate, value numbers of live SSA values, contents of
tracked memory, branch facts).  States are kept per block without widening into
each other when their typestate differs (property simulation); termination comes
from renaming: a value observed from the shared object is always called OLD and
everything derived from an older observation is renamed to a per-instruction
symbol as soon as a newer observation is made, so the set of states is finite.
No path is executed, no solver is asked; branch facts are only matched
syntactically against the canonical value terms."""
from . import terms as T
from .llvm import gep_offset, callee_name, where
from . import asmx86, asmrisc


class Incomplete(Exception):
    pass


PTR_BITS = 64


def tybits(ty):
    k = ty.kind
    if k == "int":
        return ty.bits
    if k == "ptr":
        return PTR_BITS
    if k == "float":
        return 32
    if k == "double":
        return 64
    if k == "half":
        return 16
    if k == "x86_fp80":
        return 80
    if k == "fp128":
        return 128
    if k == "vector":
        return ty.count * tybits(ty.elem)
    return None


FP_HEX = {}


def fp_const(v):
    """bit pattern of an fp constant printed by LLVM"""
    import struct
    s = v.val
    b = tybits(v.ty)
    try:
        if s.startswith("0xK"):
            return T.C(80, int(s[3:], 16))
        if s.startswith("0xL"):
            h = s[3:]
            return T.C(128, int(h[16:] + h[:16], 16))
        if s.startswith("0x"):
            d = struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]
        else:
            d = float(s)
        if b == 64:
            return T.C(64, struct.unpack("<Q", struct.pack("<d", d))[0])
        if b == 32:
            return T.C(32, struct.unpack("<I", struct.pack("<f", d))[0])
    except Exception:
        pass
    return T.S(b, ("fp", s))


class State:
    __slots__ = ("env", "mem", "facts", "ts", "trail", "frame")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}
        self.ts = {}
        self.trail = ()
        self.frame = 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ts = dict(self.ts)
        s.trail = self.trail
        s.frame = self.frame
        return s

    def note(self, inst, text):
        self.trail = self.trail[-40:] + ((text, inst.loc if inst is not None else ()),)

    # ---- renaming of symbols everywhere
    def rename(self, pred, keep_ts=()):
        """every term in env/mem mentioning a symbol with pred(name) becomes a per-holder top symbol; facts
        mentioning it are dropped"""
        cache = {}

        def bad(t):
            r = cache.get(t)
            if r is None:
                r = any(pred(n) for n in T.symbols(t))
                cache[t] = r
            return r

        def known(t):
            """a condition already decided on this path keeps its truth value"""
            if t[1] == 1:
                r = self.decide(t)
            elif t[0] == "zext" and t[2][1] == 1:
                r = self.decide(t[2])
            else:
                return None
            return None if r is None else T.C(t[1], int(r))

        for k, t in list(self.env.items()):
            if isinstance(t, list) or (t and t[0] == "agg"):
                if any(bad(x) for x in t[1] if x is not None and x[0] != "agg"):
                    self.env[k] = ("agg", tuple((known(x) or T.S(x[1], ("top", k.idx, n))) if bad(x) else x for n, x in enumerate(t[1])))
            elif bad(t):
                self.env[k] = known(t) or T.S(t[1], ("top", k.idx))
        for r, segs in list(self.mem.items()):
            ns = []
            ch = False
            for (o, n, t) in segs:
                if bad(t):
                    t = known(t) or T.S(t[1], ("topm", r, o, n))
                    ch = True
                ns.append((o, n, t))
            if ch:
                self.mem[r] = tuple(ns)
        self.facts = {t: v for t, v in self.facts.items() if not bad(t)}

    def substitute(self, f):
        cache = {}

        def g(t):
            r = cache.get(t)
            if r is None:
                r = T.subst(t, f)
                cache[t] = r
            return r

        for k, t in list(self.env.items()):
            if t[0] == "agg":
                self.env[k] = ("agg", tuple(g(x) for x in t[1]))
            else:
                self.env[k] = g(t)
        for r, segs in list(self.mem.items()):
            self.mem[r] = tuple((o, n, g(t)) for o, n, t in segs)
        nf = {}
        for t, v in self.facts.items():
            nf[g(t)] = v
        self.facts = nf

    # ---- facts
    def assume(self, c, val):
        """returns False when contradictory"""
        if T.isc(c):
            return bool(c[2]) == val
        if c[0] == "lnot":
            return self.assume(c[2], not val)
        if c[0] == "and" and c[1] == 1 and val:
            return all(self.assume(x, True) for x in c[2])
        if c[0] == "or" and c[1] == 1 and not val:
            return all(self.assume(x, False) for x in c[2])
        k = self.decide(c)
        if k is not None:
            return k == val
        self.facts[c] = val
        return self.propagate()

    def propagate(self):
        """unit propagation over the disjunctions among the facts"""
        again = True
        while again:
            again = False
            for t, v in list(self.facts.items()):
                if t[1] != 1 or (t[0], v) not in (("or", True), ("and", False)):
                    continue
                want = t[0] == "or"
                rs = [(x, self.decide1(x)) for x in t[2]]
                if any(r is want for _, r in rs):
                    continue
                un = [x for x, r in rs if r is None]
                if not un:
                    return False
                if len(un) == 1:
                    x, w = un[0], want
                    while x[0] == "lnot":
                        x, w = x[2], not w
                    if x[1] == 1 and x[0] in ("and", "or"):
                        continue
                    self.facts[x] = w
                    again = True
        return True

    def decide(self, c):
        r = self.decide1(c)
        if r is None and c[1] == 1 and any(t[1] == 1 and t[0] in ("or", "and") for t in self.facts):
            for v in (True, False):
                s = State()
                s.facts = dict(self.facts)
                x, w = c, v
                while x[0] == "lnot":
                    x, w = x[2], not w
                if x[0] in ("and", "or"):
                    lits = [(y, w) for y in x[2]] if (x[0] == "and") == w else None
                    if lits is None:
                        continue
                else:
                    lits = [(x, w)]
                dead = False
                for y, w in lits:
                    while y[0] == "lnot":
                        y, w = y[2], not w
                    k = s.decide1(y)
                    if k is not None and k != w:
                        dead = True
                        break
                    s.facts[y] = w
                if dead or not s.propagate():
                    return not v
        return r

    def decide1(self, c):
        if T.isc(c):
            return bool(c[2])
        if c[0] == "lnot":
            r = self.decide1(c[2])
            return None if r is None else not r
        if c in self.facts:
            return self.facts[c]
        if c[1] == 1 and c[0] in ("and", "or"):
            rs = [self.decide1(x) for x in c[2]]
            if c[0] == "and":
                if False in rs:
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if True in rs:
                    return True
                if all(r is False for r in rs):
                    return False
        if c[0] == "icmp" and c[2] in ("ult", "slt") and T.isc(c[3]) and not T.isc(c[4]):
            # k < x  is  !(x < k+1)
            k = c[3]
            if k[2] != ((1 << k[1]) - 1 if c[2] == "ult" else (1 << (k[1] - 1)) - 1):
                r = self.decide1(("icmp", 1, c[2], c[4], T.C(k[1], k[2] + 1)))
                if r is not None:
                    return not r
        if c[0] == "icmp" and c[2] in ("ult", "slt") and T.isc(c[4]) and not T.isc(c[3]):
            # x < k  is  !(k-1 < x)
            k = c[4]
            if k[2] != (0 if c[2] == "ult" else 1 << (k[1] - 1)):
                r = self.facts.get(("icmp", 1, c[2], T.C(k[1], k[2] - 1), c[3]))
                if r is not None:
                    return not r
        if c[0] == "icmp":
            # use recorded equalities with constants:  x == k  decides  x ? k2
            p, a, b = c[2], c[3], c[4]
            for t, v in self.facts.items():
                if v and t[0] == "icmp" and t[2] == "eq" and T.isc(t[4]):
                    if t[3] == a:
                        r = T.icmp(p, t[4], b)
                        if T.isc(r):
                            return bool(r[2])
                    if t[3] == b:
                        r = T.icmp(p, a, t[4])
                        if T.isc(r):
                            return bool(r[2])
            if p in ("ult", "slt"):
                # a<b known  =>  not (b<a), not a==b
                if self.facts.get(("icmp", 1, p, b, a)) is True:
                    return False
            if p == "eq" and a[1] > 32:
                # from the halves
                h = 32 if a[1] <= 64 else 64
                if any(t[0] == "icmp" and t[2] == "eq" and t[3][1] in (h, a[1] - h) for t in self.facts):
                    rs = []
                    for o, n in ((0, h), (h, a[1] - h)):
                        x = T.icmp("eq", T.extract(a, o, n), T.extract(b, o, n))
                        rs.append(bool(x[2]) if T.isc(x) else self.facts.get(x))
                    if False in rs:
                        return False
                    if rs == [True, True]:
                        return True
            if p == "eq":
                for q in ("ult", "slt"):
                    if self.facts.get(("icmp", 1, q, a, b)) is True or self.facts.get(("icmp", 1, q, b, a)) is True:
                        return False
            if T.isc(b) and p in ("ult", "slt"):
                for t, v in self.facts.items():
                    if t[0] == "icmp" and t[2] == p and t[3] == a and T.isc(t[4]):
                        k1, k2 = (t[4][2], b[2]) if p == "ult" else (T.sval(t[4]), T.sval(b))
                        if v and k1 <= k2:
                            return True
                        if not v and k1 >= k2:
                            return False
        if c[0] == "bit":
            # sign bit from an equality with a constant
            for t, v in self.facts.items():
                if v and t[0] == "icmp" and t[2] == "eq" and T.isc(t[4]) and t[3] == c[2] and T.isc(c[3]):
                    return bool((t[4][2] >> c[3][2]) & 1)
        return None


class Frame:
    pass


class Engine:
    MAXSTATES = 6000

    def __init__(self, fn, domain, module=None):
        self.fn = fn
        self.domain = domain
        self.module = module or fn.module
        self.nstates = 0
        self._live = {}
        self.fresh = 0
        self.blocks_seen = set()
        self.edges = 0
        self.asm_findings = []
        self.asms = {}
        self.thrown = {}
        self.leaving = []

    def asm_finding(self, s, i, rule, msg):
        self.asm_findings.append((rule, i.loc, msg))

    def asm_seen(self, i, a):
        self.asms[(a.text, a.cons)] = i.loc

    # ---------------- liveness
    def live_in(self, fn):
        r = self._live.get(fn.name)
        if r is not None:
            return r
        use = {}
        defs = {}
        phiuse = {}
        for b in fn.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    for v, pb in zip(i.ops, i.attr["blocks"]):
                        if v.kind in ("inst", "arg"):
                            phiuse.setdefault(pb.idx, set()).add((b.idx, v))
                    d.add(i)
                    continue
                ops = list(i.ops)
                c = i.attr.get("callee") if i.attr else None
                if c is not None:
                    ops.append(c)
                for v in ops:
                    if v.kind in ("inst", "arg") and v not in d:
                        u.add(v)
                d.add(i)
            use[b.idx], defs[b.idx] = u, d
        live = {b.idx: set() for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for s in b.succs:
                    out |= live[s.idx]
                out |= {v for _, v in phiuse.get(b.idx, ())}
                n = use[b.idx] | (out - defs[b.idx])
                if n != live[b.idx]:
                    live[b.idx] = n
                    ch = True
        self._live[fn.name] = live
        return live

    # ---------------- values
    def val(self, st, v):
        k = v.kind
        if k in ("inst", "arg"):
            r = st.env.get(v)
            if r is None:
                b = tybits(v.ty)
                if b is None:
                    raise Incomplete("value of type %s" % v.ty)
                return T.S(b, ("undefd", v.idx))
            return r
        if k == "int":
            return T.C(v.ty.bits, v.val)
        if k == "fp":
            return fp_const(v)
        if k == "null":
            return T.C(PTR_BITS, 0)
        if k in ("undef", "poison"):
            b = tybits(v.ty)
            if b is None:
                if v.ty.kind == "struct":
                    return ("agg", tuple(T.S(tybits(e) or 8, "undef") for e in v.ty.elems))
                return T.S(8, "undef")
            return T.S(b, "undef")
        if k in ("global", "func", "alias"):
            return T.S(PTR_BITS, ("&", ("G", v.name)))
        if k == "aggzero":
            b = tybits(v.ty)
            if b is not None:
                return T.C(b, 0)
            if v.ty.kind == "struct":
                return ("agg", tuple(T.C(tybits(e), 0) for e in v.ty.elems))
        if k == "agg":
            if v.ty.kind == "vector":
                return T.concat([self.val(st, o) for o in v.ops])
            if v.ty.kind == "struct":
                return ("agg", tuple(self.val(st, o) for o in v.ops))
        if k == "cexpr":
            if v.op == "gep":
                off, var = gep_offset(v)
                r = T.add(self.val(st, v.ops[0]), T.C(PTR_BITS, off))
                for ix, sc in var:
                    t = self.val(st, ix)
                    t = T.sext(t, PTR_BITS) if t[1] < PTR_BITS else t
                    r = T.add(r, T.scale(t, sc))
                return r
            if v.op in ("ptrtoint", "inttoptr", "bitcast"):
                t = self.val(st, v.ops[0])
                b = tybits(v.ty)
                return T.trunc(t, b) if b < t[1] else T.zext(t, b)
            args = [self.val(st, o) for o in v.ops]
            return self.binop(v.op, tybits(v.ty), args, None)
        return T.S(tybits(v.ty) or 64, ("const", repr(v)))

    def opaque(self, st, i, tag=None):
        b = tybits(i.ty)
        if b is None:
            if i.ty.kind == "struct":
                return ("agg", tuple(T.S(tybits(e) or 8, ("top", i.idx, n)) for n, e in enumerate(i.ty.elems)))
            return T.S(8, ("top", i.idx))
        return T.S(b, ("top", i.idx))

    def binop(self, op, w, a, i):
        x = a[0]
        y = a[1] if len(a) > 1 else None
        if op == "add":
            return T.add(x, y)
        if op == "sub":
            return T.sub(x, y)
        if op == "mul":
            return T.mul(x, y)
        if op == "and":
            return T.and_(x, y)
        if op == "or":
            return T.or_(x, y)
        if op == "xor":
            return T.xor(x, y)
        if op == "shl":
            return T.shl(x, y)
        if op == "lshr":
            return T.lshr(x, y)
        if op == "ashr":
            return T.ashr(x, y)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if T.isc(y) and y[2]:
                if T.isc(x):
                    if op == "udiv":
                        return T.C(w, x[2] // y[2])
                    if op == "urem":
                        return T.C(w, x[2] % y[2])
                    p, q = T.sval(x), T.sval(y)
                    d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    return T.C(w, d) if op == "sdiv" else T.C(w, p - d * q)
                # n % d == n - (n / d) * d
                if op == "srem":
                    return T.sub(x, T.mul(T.opq("sdiv", w, x, y), y))
                if op == "urem":
                    return T.sub(x, T.mul(T.opq("udiv", w, x, y), y))
            return T.opq(op, w, x, y)
        if op in ("fadd", "fmul"):
            return T.fop(op, w, x, y)
        if op in ("fsub", "fdiv", "frem"):
            if op == "fsub" and T.isc(x) and x[2] == 1 << (w - 1):
                return T.fneg(y)
            return (op, w, x, y)
        return T.opq(op, w, *a)

    # ---------------- pointers and memory
    def resolve(self, p):
        """pointer term -> (region, const offset)"""
        if p[0] == "s":
            n = p[2]
            if isinstance(n, tuple) and n[0] == "&":
                return n[1], 0
            return ("P", p), 0
        if p[0] == "lin":
            base = None
            ok = True
            for c, x in p[3]:
                if c == 1 and x[0] == "s" and isinstance(x[2], tuple) and x[2][0] == "&" and base is None:
                    base = x[2][1]
                else:
                    ok = False
            if base is not None and ok:
                o = p[2]
                if o >> 63:
                    o -= 1 << 64
                return base, o
            if base is not None:
                return base, None
            o = p[2]
            if o >> 63:
                o -= 1 << 64
            return ("P", T._mklin(64, 0, dict((x, c) for c, x in p[3]))), o
        return ("P", p), 0

    def mem_read(self, st, region, off, size):
        segs = st.mem.get(region, ())
        if off is None:
            return T.S(8 * size, ("mvar", region))
        parts = []
        pos = off
        end = off + size
        for (o, n, t) in segs:
            if o + n <= pos or o >= end:
                continue
            if o > pos:
                d = T.S(8 * (o - pos), ("mem", region, pos))
                self.mem_write(st, region, pos, o - pos, d)
                parts.append(d)
                pos = o
            lo = pos - o
            m = min(n - lo, end - pos)
            parts.append(T.extract(t, 8 * lo, 8 * m) if (lo or m < n) else t)
            pos += m
        if pos < end:
            d = T.S(8 * (end - pos), ("mem", region, pos))
            self.mem_write(st, region, pos, end - pos, d)
            parts.append(d)
        if len(parts) == 1:
            return parts[0]
        return T.concat(parts)

    def mem_write(self, st, region, off, size, t):
        if off is None:
            st.mem[region] = tuple((o, n, T.S(8 * n, ("mvw", region, o))) for o, n, _ in st.mem.get(region, ()))
            return
        out = []
        end = off + size
        for (o, n, x) in st.mem.get(region, ()):
            if o + n <= off or o >= end:
                out.append((o, n, x))
                continue
            if o < off:
                out.append((o, off - o, T.trunc(x, 8 * (off - o))))
            if o + n > end:
                out.append((end, o + n - end, T.extract(x, 8 * (end - o), 8 * (o + n - end))))
        out.append((off, size, t))
        out.sort(key=lambda s: s[0])
        st.mem[region] = tuple(out)

    def havoc_region(self, st, region, tag):
        segs = st.mem.get(region)
        if segs:
            st.mem[region] = tuple((o, n, T.S(8 * n, ("hv", tag, region, o))) for o, n, _ in segs)
        else:
            st.mem.pop(region, None)

    # ---------------- running
    def run(self, st, args=None):
        d = self.domain
        for n, a in enumerate(self.fn.args):
            if args is not None and n < len(args) and args[n] is not None:
                st.env[a] = args[n]
            else:
                b = tybits(a.ty)
                st.env[a] = T.S(b, ("arg", n)) if b else None
        for (s, rv, inst) in self.exec_fn(self.fn, st, 0):
            d.on_return(self, s, rv, inst)

    def exec_fn(self, fn, st, depth):
        """yields (state, return term, ret inst)"""
        live = self.live_in(fn)
        work = [(fn.blocks[0], None, st)]
        seen = set()
        res = []
        while work:
            blk, pred, s = work.pop()
            self.nstates += 1
            if self.nstates > self.MAXSTATES:
                raise Incomplete("state budget exceeded in %s" % self.fn.name)
            self.edges += 1
            # phis
            newv = {}
            for i in blk.insts:
                if i.op != "phi":
                    break
                for v, pb in zip(i.ops, i.attr["blocks"]):
                    if pb is pred:
                        newv[i] = self.val(s, v)
                        break
                else:
                    raise Incomplete("phi without edge")
            s.env.update(newv)
            lv = live[blk.idx]
            phis = set(newv)
            keep = {}
            for k, t in s.env.items():
                if k in lv or k in phis or (k.block is not None and k.block.fn is not fn) or (k.kind == "arg"):
                    keep[k] = t
            s.env = keep
            self.domain.at_block(self, s, blk)
            keyv = (blk.idx, self.statekey(s, fn))
            if keyv in seen:
                continue
            seen.add(keyv)
            self.blocks_seen.add((fn.name, blk.idx))
            self.exec_block(fn, blk, s, depth, work, res)
        return res

    def statekey(self, s, fn):
        return (tuple(sorted(((k.block.fn.name if k.block is not None else ""), k.kind, k.idx, t) for k, t in s.env.items())
                      .__iter__()) if False else frozenset(((id(k), t) for k, t in s.env.items())),
                frozenset(s.mem.items()), frozenset(s.facts.items()), frozenset(s.ts.items()))

    def exec_block(self, fn, blk, s, depth, work, res):
        states = [s]
        for i in blk.insts:
            if i.op == "phi":
                continue
            if i is blk.term and i.op not in ("call",):
                for s1 in states:
                    self.exec_term(fn, blk, i, s1, work, res, depth)
                return
            nxt = []
            for s1 in states:
                r = self.exec_inst(s1, i, depth)
                if r is None:
                    nxt.append(s1)
                else:
                    nxt.extend(r)
            states = nxt
            if not states:
                return
            if len(states) > 200:
                raise Incomplete("too many states")

    def exec_term(self, fn, blk, i, s, work, res, depth):
        if i.op == "ret":
            rv = self.val(s, i.ops[0]) if i.ops else None
            res.append((s, rv, i))
        elif i.op == "br":
            if not i.ops:
                work.append((i.attr["succs"][0], blk, s))
            else:
                c = self.val(s, i.ops[0])
                k = s.decide(c)
                for n, tgt in enumerate(i.attr["succs"]):
                    want = n == 0
                    if k is not None and k != want:
                        continue
                    s2 = s.copy()
                    if s2.assume(c, want):
                        self.domain.on_branch(self, s2, c, want, i)
                        work.append((tgt, blk, s2))
        elif i.op == "switch":
            c = self.val(s, i.ops[0])
            s0 = s.copy()
            okd = True
            for val, tgt in i.attr["cases"]:
                e = T.icmp("eq", c, T.C(c[1], val))
                k = s.decide(e)
                if k is not False:
                    s2 = s.copy()
                    if s2.assume(e, True):
                        work.append((tgt, blk, s2))
                if k is True:
                    okd = False
                    break
                okd = okd and s0.assume(e, False)
            if okd:
                work.append((i.attr["default"], blk, s0))
        elif i.op == "unreachable":
            self.domain.on_unreachable(self, s, i)
        elif i.op == "invoke":
            r = self.exec_call(s, i, depth)
            for s2 in (r if r is not None else [s]):
                work.append((i.attr["succs"][0], blk, s2))
            for s3 in self.thrown.pop(i, ()):
                work.append((i.attr["succs"][1], blk, s3))
        elif i.op == "resume":
            self.throw(s, i, depth)
        else:
            raise Incomplete("terminator %s" % i.op)

    def exec_inst(self, s, i, depth):
        op = i.op
        env = s.env
        d = self.domain
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            if i.ty.kind == "vector":
                env[i] = self.vecop(s, i)
            else:
                env[i] = self.binop(op, tybits(i.ty), [self.val(s, o) for o in i.ops], i)
        elif op == "fneg":
            env[i] = T.fneg(self.val(s, i.ops[0])) if i.ty.kind != "vector" else self.opaque(s, i)
        elif op in ("trunc", "zext", "sext") and i.ty.kind == "vector":
            env[i] = self.vecop(s, i)
        elif op == "trunc":
            env[i] = T.trunc(self.val(s, i.ops[0]), tybits(i.ty))
        elif op == "zext":
            env[i] = T.zext(self.val(s, i.ops[0]), tybits(i.ty))
        elif op == "sext":
            env[i] = T.sext(self.val(s, i.ops[0]), tybits(i.ty))
        elif op in ("bitcast", "freeze", "addrspacecast"):
            env[i] = self.val(s, i.ops[0])
        elif op in ("ptrtoint", "inttoptr"):
            t = self.val(s, i.ops[0])
            b = tybits(i.ty)
            env[i] = T.trunc(t, b) if b < t[1] else T.zext(t, b)
        elif op in ("fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp"):
            env[i] = T.opq(op, tybits(i.ty), self.val(s, i.ops[0])) if i.ty.kind != "vector" else self.opaque(s, i)
        elif op == "icmp":
            if i.ops[0].ty.kind == "vector":
                env[i] = self.vecop(s, i)
            else:
                env[i] = T.icmp(i.attr["pred"], self.val(s, i.ops[0]), self.val(s, i.ops[1]))
        elif op == "fcmp":
            env[i] = T.opq("fcmp_" + i.attr["pred"], tybits(i.ty), self.val(s, i.ops[0]), self.val(s, i.ops[1]))
        elif op == "select":
            if i.ops[0].ty.kind == "vector":
                env[i] = self.opaque(s, i)
            else:
                c = self.val(s, i.ops[0])
                k = s.decide(c)
                a, b = self.val(s, i.ops[1]), self.val(s, i.ops[2])
                if k is not None:
                    env[i] = a if k else b
                elif a[0] == "agg":
                    env[i] = ("agg", tuple(T.sel(c, x, y) for x, y in zip(a[1], b[1])))
                elif d.split_select(self, s, i, c, a, b):
                    out = []
                    for want in (True, False):
                        s2 = s.copy()
                        if s2.assume(c, want):
                            s2.env[i] = a if want else b
                            out.append(s2)
                    return out
                else:
                    env[i] = T.sel(c, a, b)
        elif op == "gep":
            off, var = gep_offset(i)
            r = T.add(self.val(s, i.ops[0]), T.C(PTR_BITS, off))
            for ix, sc in var:
                t = self.val(s, ix)
                if t[1] < PTR_BITS:
                    t = T.sext(t, PTR_BITS)
                r = T.add(r, T.scale(t, sc))
            env[i] = r
        elif op == "alloca":
            env[i] = T.S(PTR_BITS, ("&", ("L", i.block.fn.name, i.idx)))
        elif op == "extractvalue":
            a = self.val(s, i.ops[0])
            for ix in i.attr["idx"]:
                if a[0] != "agg":
                    a = None
                    break
                a = a[1][ix]
            env[i] = a if a is not None else self.opaque(s, i)
        elif op == "insertvalue":
            a = self.val(s, i.ops[0])
            ix = i.attr["idx"]
            v = self.val(s, i.ops[1])
            if len(ix) == 1 and a[0] == "agg":
                l = list(a[1])
                l[ix[0]] = v
                env[i] = ("agg", tuple(l))
            else:
                env[i] = self.opaque(s, i)
        elif op in ("extractelement", "insertelement", "shufflevector"):
            env[i] = self.vecop(s, i)
        elif op == "load":
            return self.do_load(s, i)
        elif op == "store":
            return self.do_store(s, i)
        elif op == "fence":
            return d.on_fence(self, s, i, i.attr["ord"], i.attr["st"])
        elif op == "atomicrmw":
            return d.on_rmw(self, s, i, self.resolve(self.val(s, i.ops[0])), self.val(s, i.ops[1]))
        elif op == "cmpxchg":
            return d.on_cmpxchg(self, s, i, self.resolve(self.val(s, i.ops[0])), self.val(s, i.ops[1]), self.val(s, i.ops[2]))
        elif op == "call":
            return self.exec_call(s, i, depth)
        elif op == "landingpad":
            env[i] = self.opaque(s, i)
        else:
            env[i] = self.opaque(s, i)
        return None

    def vecop(self, s, i):
        try:
            if i.op == "extractelement" and i.ops[1].kind == "int":
                w = tybits(i.ty)
                return T.extract(self.val(s, i.ops[0]), w * i.ops[1].val, w)
            if i.op == "insertelement" and i.ops[2].kind == "int":
                w = tybits(i.ty.elem)
                v = self.val(s, i.ops[0])
                parts = [T.extract(v, w * n, w) for n in range(i.ty.count)]
                parts[i.ops[2].val] = self.val(s, i.ops[1])
                return T.concat(parts)
            if i.op == "shufflevector":
                w = tybits(i.ty.elem)
                a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
                n = i.ops[0].ty.count
                parts = []
                for m in i.attr["mask"]:
                    if m < 0:
                        parts.append(T.S(w, "undef"))
                    elif m < n:
                        parts.append(T.extract(a, w * m, w))
                    else:
                        parts.append(T.extract(b, w * (m - n), w))
                return T.concat(parts)
            if i.op in ("and", "or", "xor"):
                return self.binop(i.op, tybits(i.ty), [self.val(s, o) for o in i.ops], i)
        except Exception:
            pass
        return self.opaque(s, i)

    def do_load(self, s, i):
        p = self.val(s, i.ops[0])
        region, off = self.resolve(p)
        size = i.ty.store
        if i.ty.kind in ("struct", "array"):
            raise Incomplete("aggregate load")
        b = tybits(i.ty)
        r = self.domain.on_load(self, s, i, region, off, size, p)
        if r is not None:
            return r
        t = self.mem_read(s, region, off, size)
        s.env[i] = T.trunc(t, b) if t[1] > b else t
        return None

    def do_store(self, s, i):
        v = self.val(s, i.ops[0])
        p = self.val(s, i.ops[1])
        region, off = self.resolve(p)
        size = i.ops[0].ty.store
        if v[0] == "agg":
            raise Incomplete("aggregate store")
        if v[1] < 8 * size:
            v = T.zext(v, 8 * size)
        r = self.domain.on_store(self, s, i, region, off, size, v, p)
        if r is not None:
            return r
        self.mem_write(s, region, off, size, v)
        return None

    # ---------------- calls
    def throw(self, s, i, depth):
        """an exception leaves the current function"""
        if depth == 0:
            self.domain.on_unwind(self, s, i)
        else:
            self.leaving[-1].append(s)

    def thrown_at(self, states, i, depth):
        if i.op == "invoke":
            self.thrown.setdefault(i, []).extend(states)
        else:
            for s in states:
                self.throw(s, i, depth)

    def exec_call(self, s, i, depth):
        s3 = s.copy()
        if self.domain.follow_unwind(self, s3, i):
            self.thrown_at([s3], i, depth)
        c = i.attr["callee"]
        if c.kind == "asm":
            return self.exec_asm(s, i, c)
        args = [self.val(s, a) if a.kind != "md" else None for a in i.ops]
        if c.kind in ("func", "alias"):
            name = c.name
            if name.startswith("llvm."):
                return self.intrinsic(s, i, name, args)
            r = self.domain.pre_call(self, s, i, name, args)
            if r is not None:
                return r
            fn = self.module.functions.get(name)
            if fn is not None and not fn.decl and depth < 8:
                return self.inline(s, i, fn, args, depth)
            if name in ("memcpy", "memmove") and T.isc(args[2]):
                s.env[i] = args[0]
                return self.do_memcpy(s, i, args[0], args[1], args[2][2])
            if name == "memset" and T.isc(args[2]):
                s.env[i] = args[0]
                return self.do_memset(s, i, args[0], args[1], args[2][2])
            if name in ("memcmp", "bcmp") and T.isc(args[2]):
                n = args[2][2]
                outs = self.read_bytes(s, i, args[0], n)
                res = []
                for s1, x in outs:
                    for s2, y in self.read_bytes(s1, i, args[1], n):
                        s2.env[i] = ("bcmp", 32, x, y)
                        res.append(s2)
                return res
        r = self.domain.on_call(self, s, i, callee_name(i), args)
        if r is not None:
            return r
        for a in args:
            if a is not None and a[0] != "agg":
                reg, _ = self.resolve(a)
                if reg[0] == "L":
                    self.havoc_region(s, reg, i.idx)
        if i.ty.kind != "void":
            s.env[i] = self.opaque(s, i)
        return None

    def inline(self, s, i, fn, args, depth):
        saved = s.env
        s2 = s.copy()
        env = {k: t for k, t in saved.items()}
        for a, t in zip(fn.args, args):
            env[a] = t
        s2.env = env
        # values of the caller frame must survive renames: they stay in env (not live-filtered for other functions)
        outs = []
        self.leaving.append([])
        rets = self.exec_fn_nested(fn, s2, depth + 1)
        gone = self.leaving.pop()

        def outer(env):
            return {k: t for k, t in env.items() if k.block is None and k not in fn.args or (k.block is not None and k.block.fn is not fn)}
        for r in gone:
            r.env = outer(r.env)
        self.thrown_at(gone, i, depth)
        for (r, rv, _) in rets:
            r.env = outer(r.env)
            if i.ty.kind != "void":
                r.env[i] = rv if rv is not None else self.opaque(r, i)
            outs.append(r)
        return outs

    def exec_fn_nested(self, fn, st, depth):
        return self.exec_fn(fn, st, depth)

    def read_bytes(self, s, i, p, n):
        """[(state, term of 8n bits)] — goes through the domain for the shared object"""
        region, off = self.resolve(p)
        r = self.domain.on_bulk_read(self, s, i, region, off, n)
        if r is not None:
            return r
        return [(s, self.mem_read(s, region, off, n))]

    def write_bytes(self, s, i, p, n, t):
        region, off = self.resolve(p)
        r = self.domain.on_bulk_write(self, s, i, region, off, n, t)
        if r is not None:
            return r
        self.mem_write(s, region, off, n, t)
        return [s]

    def do_memcpy(self, s, i, dst, src, n):
        if n == 0:
            return [s]
        out = []
        for s1, t in self.read_bytes(s, i, src, n):
            out.extend(self.write_bytes(s1, i, dst, n, t))
        return out

    def do_memset(self, s, i, dst, v, n):
        if n == 0:
            return [s]
        v = T.trunc(v, 8)
        t = T.C(8 * n, int.from_bytes(bytes([v[2]]) * n, "little")) if T.isc(v) else T.concat([v] * n)
        return self.write_bytes(s, i, dst, n, t)

    def intrinsic(self, s, i, name, args):
        base = name.split(".")
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.invariant", "llvm.donothing", "llvm.prefetch")):
            return None
        if name.startswith("llvm.assume"):
            if not s.assume(args[0], True):
                return []
            return None
        if name.startswith("llvm.expect"):
            s.env[i] = args[0]
            return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            if T.isc(args[2]):
                return self.do_memcpy(s, i, args[0], args[1], args[2][2])
            return self.domain.on_call(self, s, i, name, args)
        if name.startswith("llvm.memset"):
            if T.isc(args[2]):
                return self.do_memset(s, i, args[0], args[1], args[2][2])
            return self.domain.on_call(self, s, i, name, args)
        if i.ty.kind == "void":
            return self.domain.on_call(self, s, i, name, args)
        w = tybits(i.ty)
        if base[1] in ("smax", "smin", "umax", "umin") and w:
            p = base[1][0] + ("gt" if base[1].endswith("max") else "lt")
            s.env[i] = T.sel(T.icmp(p, args[0], args[1]), args[0], args[1])
            return None
        if base[1] == "abs":
            s.env[i] = T.sel(T.icmp("slt", args[0], T.C(w, 0)), T.neg(args[0]), args[0])
            return None
        if base[1] == "fabs":
            s.env[i] = ("fabs", w, args[0])
            return None
        if base[1] == "fmuladd":
            s.env[i] = T.fop("fadd", w, T.fop("fmul", w, args[0], args[1]), args[2])
            return None
        r = self.domain.on_intrinsic(self, s, i, name, args)
        if r is not None:
            return r
        if w:
            s.env[i] = T.opq(".".join(base[1:]), w, *[a for a in args if a is not None and a[0] != "agg"])
        else:
            s.env[i] = self.opaque(s, i)
        return None

    def exec_asm(self, s, i, c):
        if self.domain.arch != "x86":
            return asmrisc.execute(self, s, i, c, self.domain.arch)
        return asmx86.execute(self, s, i, c)


RMW_FN = {"xchg": lambda o, v: v, "add": T.add, "sub": T.sub, "and": T.and_, "nand": lambda o, v: T.not_(T.and_(o, v)),
          "or": T.or_, "xor": T.xor, "max": lambda o, v: T.sel(T.icmp("sgt", o, v), o, v),
          "min": lambda o, v: T.sel(T.icmp("slt", o, v), o, v), "umax": lambda o, v: T.sel(T.icmp("ugt", o, v), o, v),
          "umin": lambda o, v: T.sel(T.icmp("ult", o, v), o, v), "fadd": lambda o, v: T.fop("fadd", o[1], o, v),
          "fsub": lambda o, v: ("fsub", o[1], o, v)}


class Domain:
    """default hooks: every location is private to the analysed function"""
    arch = "x86"

    def at_block(self, e, s, b):
        pass

    def on_branch(self, e, s, c, want, i):
        pass

    def on_return(self, e, s, rv, i):
        pass

    def on_unreachable(self, e, s, i):
        pass

    def follow_unwind(self, e, s, i):
        return False

    def on_unwind(self, e, s, i):
        pass

    def split_select(self, e, s, i, c, a, b):
        return False

    def on_fence(self, e, s, i, order, st):
        return None

    def on_hw_fence(self, e, s, i, mn):
        return None

    def on_compiler_barrier(self, e, s, i):
        return None

    def on_pause(self, e, s, i):
        return None

    # --- uniform accesses; every one returns a list of successor states
    def is_shared(self, e, s, region):
        return False

    def acc_load(self, e, s, i, region, off, size, order, atomic):
        return [(s, e.mem_read(s, region, off, size))]

    def acc_store(self, e, s, i, region, off, size, v, order, atomic):
        e.mem_write(s, region, off, size, v)
        return [s]

    def acc_rmw(self, e, s, i, region, off, size, f, order, locked=True):
        old = e.mem_read(s, region, off, size)
        e.mem_write(s, region, off, size, f(old))
        return [(s, old)]

    def acc_cas(self, e, s, i, region, off, size, exp, new, so, fo, weak):
        old = e.mem_read(s, region, off, size)
        c = T.icmp("eq", old, exp)
        out = []
        s1 = s.copy()
        if s1.assume(c, True):
            e.mem_write(s1, region, off, size, new)
            out.append((s1, True, exp))
        s2 = s.copy()
        if s2.assume(c, False):
            out.append((s2, False, old))
        return out

    # --- LLVM instructions mapped on them
    def on_load(self, e, s, i, region, off, size, p):
        if not self.is_shared(e, s, region):
            return None
        out = []
        b = tybits(i.ty)
        for s2, t in self.acc_load(e, s, i, region, off, size, "vol" if i.attr["ord"] == "na" and i.attr["vol"] else i.attr["ord"],
                                   i.attr["ord"] != "na"):
            s2.env[i] = T.trunc(t, b) if t[1] > b else t
            out.append(s2)
        return out

    def on_store(self, e, s, i, region, off, size, v, p):
        if not self.is_shared(e, s, region):
            return None
        return self.acc_store(e, s, i, region, off, size, v, "vol" if i.attr["ord"] == "na" and i.attr["vol"] else i.attr["ord"],
                              i.attr["ord"] != "na")

    def on_bulk_read(self, e, s, i, region, off, n):
        if not self.is_shared(e, s, region):
            return None
        return self.acc_load(e, s, i, region, off, n, "bulk", False)

    def on_bulk_write(self, e, s, i, region, off, n, t):
        if not self.is_shared(e, s, region):
            return None
        return self.acc_store(e, s, i, region, off, n, t, "bulk", False)

    def on_rmw(self, e, s, i, loc, v):
        region, off = loc
        f = RMW_FN.get(i.attr["rmw"])
        w = v[1]
        if f is None:
            f = lambda o, x: T.opq("rmw_" + i.attr["rmw"], w, o, x)
        out = []
        for s2, old in self.acc_rmw(e, s, i, region, off, w // 8, lambda o: f(T.trunc(o, w), v), i.attr["ord"], True):
            s2.env[i] = T.trunc(old, w)
            out.append(s2)
        return out

    def on_cmpxchg(self, e, s, i, loc, exp, new):
        region, off = loc
        out = []
        for s2, ok, obs in self.acc_cas(e, s, i, region, off, exp[1] // 8, exp, new, i.attr["succ"], i.attr["fail"], i.attr["weak"]):
            s2.env[i] = ("agg", (exp if ok else obs, T.TRUE if ok else T.FALSE))
            out.append(s2)
        return out

    def pre_call(self, e, s, i, name, args):
        return None

    def on_call(self, e, s, i, name, args):
        return None

    def on_intrinsic(self, e, s, i, name, args):
        return None
